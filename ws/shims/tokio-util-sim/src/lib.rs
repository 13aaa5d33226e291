//! Frames over the connections of tokio-sim.
pub mod codec {
    use bytes::BytesMut;
    use std::{
        io,
        pin::Pin,
        task::{Context, Poll},
    };
    use tokio_sim::net::tcp::OwnedReadHalf;

    pub use actix_sim::io::Encoder;
    pub trait Decoder {
        type Item;
        type Error: From<io::Error>;
        fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error>;
        fn decode_eof(&mut self, buf: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
            match self.decode(buf)? {
                Some(x) => Ok(Some(x)),
                None if buf.is_empty() => Ok(None),
                None => Err(io::Error::other("bytes remaining on stream").into()),
            }
        }
    }
    pub struct FramedRead<R, D> {
        from: R,
        codec: D,
        buf: BytesMut,
        end: bool,
        failed: bool,
    }
    impl<R, D> FramedRead<R, D> {
        pub fn new(from: R, codec: D) -> Self {
            FramedRead { from, codec, buf: BytesMut::new(), end: false, failed: false }
        }
    }
    impl<R, D> Unpin for FramedRead<R, D> {}
    impl<D: Decoder> futures::Stream for FramedRead<OwnedReadHalf, D> {
        type Item = Result<D::Item, D::Error>;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            let s = self.get_mut();
            loop {
                if s.failed {
                    return Poll::Ready(None);
                }
                let r = if s.end { s.codec.decode_eof(&mut s.buf) } else { s.codec.decode(&mut s.buf) };
                match r {
                    Err(e) => {
                        s.failed = true;
                        return Poll::Ready(Some(Err(e)));
                    }
                    Ok(Some(x)) => return Poll::Ready(Some(Ok(x))),
                    Ok(None) if s.end => return Poll::Ready(None),
                    Ok(None) => {}
                }
                match s.from.0.poll_read(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(None) => s.end = true,
                    Poll::Ready(Some(b)) => s.buf.extend_from_slice(&b),
                }
            }
        }
    }
}
