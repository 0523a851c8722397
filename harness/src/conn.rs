//! Connections over plain channels, and a runtime that only moves when told to.
use std::sync::Mutex;
use sync_ls::{transport::*, *};

/// The connection types can only be made by the transport: make one over an empty replay and swap its channels.
pub fn template<M: TryFrom<Message, Error = anyhow::Error> + GetMessageKind>() -> (TConnectionTx<M>, TConnectionRx<M>) {
    let out = Mutex::new(None);
    with_stdio_transport::<M>(MirrorArgs { mirror: String::new(), replay: "/dev/null".into() }, |mut conn| {
        let (tx, rx) = crossbeam_channel::unbounded();
        conn.sender.lsp = tx;
        conn.receiver.lsp = rx;
        let Connection { sender, receiver } = conn;
        *out.lock().unwrap() = Some((sender, receiver));
        Ok(())
    })
    .expect("empty transport");
    out.into_inner().unwrap().unwrap()
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub fn settle(rt: &tokio::runtime::Runtime) {
    rt.block_on(async {
        for _ in 0..12 {
            tokio::task::yield_now().await;
        }
    });
}
