//! The one type of futures 0.1 that witnet_wallet names.
pub mod sync {
    pub mod mpsc {
        #[derive(Debug, thiserror::Error)]
        #[error("send failed because receiver is gone")]
        pub struct SendError<T>(pub T);
    }
}
