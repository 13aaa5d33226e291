//! The whole of /repo/node but for the sockets: connections are made by a stand-in.
#![allow(dead_code, unused_imports)]

pub mod actors {
    #[path = "/repo/node/src/actors/chain_manager/mod.rs"]
    pub mod chain_manager;
    #[path = "/repo/node/src/actors/codec.rs"]
    pub mod codec;
    #[path = "/repo/node/src/actors/epoch_manager/mod.rs"]
    pub mod epoch_manager;
    #[path = "/repo/node/src/actors/inventory_manager/mod.rs"]
    pub mod inventory_manager;
    #[path = "/repo/node/src/actors/json_rpc/mod.rs"]
    pub mod json_rpc;
    #[path = "/repo/node/src/actors/messages.rs"]
    pub mod messages;
    #[path = "/repo/node/src/actors/node.rs"]
    pub mod node;
    #[path = "/repo/node/src/actors/peers_manager/mod.rs"]
    pub mod peers_manager;
    #[path = "/repo/node/src/actors/rad_manager/mod.rs"]
    pub mod rad_manager;
    #[path = "/repo/node/src/actors/session/mod.rs"]
    pub mod session;
    #[path = "/repo/node/src/actors/sessions_manager/mod.rs"]
    pub mod sessions_manager;
    #[path = "/repo/node/src/actors/storage_keys.rs"]
    pub mod storage_keys;

    /// Stands in for the actor that listens and connects: it keeps what it is asked for.
    pub mod connections_manager {
        use crate::actors::messages::*;
        use actix::prelude::*;
        use std::{cell::RefCell, net::SocketAddr};
        use witnet_p2p::sessions::SessionType;
        #[derive(Default)]
        pub struct ConnectionsManager;
        thread_local! {
            /// The connections it was asked to make, and by which node.
            pub static ASKED: RefCell<Vec<(usize, SocketAddr, SessionType)>> = const { RefCell::new(vec![]) };
        }
        impl Actor for ConnectionsManager {
            type Context = Context<Self>;
        }
        impl Supervised for ConnectionsManager {}
        impl SystemService for ConnectionsManager {}
        impl Handler<OutboundTcpConnect> for ConnectionsManager {
            type Result = ();
            fn handle(&mut self, m: OutboundTcpConnect, _: &mut Context<Self>) {
                ASKED.with(|a| a.borrow_mut().push((actix::world::node(), m.address, m.session_type)));
            }
        }
        pub mod resolver {
            #[derive(Debug)]
            pub struct ResolverError;
        }
    }
}

#[path = "/repo/node/src/config_mngr.rs"]
pub mod config_mngr;
#[path = "/repo/node/src/signature_mngr.rs"]
pub mod signature_mngr;
pub mod storage_mngr;
#[path = "/repo/node/src/utils.rs"]
pub mod utils;
