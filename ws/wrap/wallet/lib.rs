//! The whole of /repo/wallet but for its start-up: the methods of its JSON-RPC server are called
//! directly, its actors handle messages at once.
#![allow(dead_code, unused_imports)]

#[path = "/repo/wallet/src/account.rs"]
pub mod account;
#[path = "/repo/wallet/src/constants.rs"]
pub mod constants;
#[path = "/repo/wallet/src/crypto.rs"]
pub mod crypto;
#[path = "/repo/wallet/src/db/mod.rs"]
pub mod db;
#[path = "/repo/wallet/src/model.rs"]
pub mod model;
#[path = "/repo/wallet/src/params.rs"]
pub mod params;
#[path = "/repo/wallet/src/repository/mod.rs"]
pub mod repository;
#[path = "/repo/wallet/src/types.rs"]
pub mod types;

use crate::actors::app;

pub mod actors {
    #[path = "/repo/wallet/src/actors/worker/mod.rs"]
    pub mod worker;
    pub use worker::Worker;

    #[path = "/repo/wallet/src/actors/app/mod.rs"]
    pub mod app;
    pub use app::App;
}
