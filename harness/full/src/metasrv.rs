//! A metadata service on the loopback: cnosdb's own state machine behind the
//! HTTP requests cnosdb's own client sends.
use std::sync::Arc;

use meta::store::command::{ReadCommand, WriteCommand};
use meta::store::storage::StateMachine;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::RwLock;

pub type Store = Arc<RwLock<StateMachine>>;

/// Serves until the runtime ends; returns the address.
pub async fn serve(store: Store) -> String {
    let listener = TcpListener::bind("127.0.0.1:0").await.expect("loopback listener");
    let addr = listener.local_addr().unwrap().to_string();
    tokio::spawn(async move {
        loop {
            if let Ok((sock, _)) = listener.accept().await {
                let store = store.clone();
                tokio::spawn(async move {
                    let _ = connection(sock, store).await;
                });
            }
        }
    });
    addr
}

async fn connection(mut sock: TcpStream, store: Store) -> std::io::Result<()> {
    sock.set_nodelay(true)?;
    let mut buf: Vec<u8> = Vec::new();
    loop {
        let head = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p;
            }
            if sock.read_buf(&mut buf).await? == 0 {
                return Ok(());
            }
        };
        let text = String::from_utf8_lossy(&buf[..head]).to_string();
        let path = text.split(' ').nth(1).unwrap_or("").to_string();
        let len: usize = text
            .lines()
            .filter_map(|l| l.split_once(':'))
            .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
            .and_then(|(_, v)| v.trim().parse().ok())
            .unwrap_or(0);
        while buf.len() < head + 4 + len {
            if sock.read_buf(&mut buf).await? == 0 {
                return Ok(());
            }
        }
        let body: Vec<u8> = buf[head + 4..head + 4 + len].to_vec();
        buf.drain(..head + 4 + len);
        let answer = match path.as_str() {
            "/read" => match serde_json::from_slice::<ReadCommand>(&body) {
                Ok(c) => store.read().await.process_read_command(&c),
                Err(e) => format!("{{\"Err\":{{\"SerdeMsgInvalid\":{{\"err\":{:?}}}}}}}", e.to_string()),
            },
            "/write" => match serde_json::from_slice::<WriteCommand>(&body) {
                Ok(c) => store.write().await.process_write_command(&c).await,
                Err(e) => format!("{{\"Err\":{{\"SerdeMsgInvalid\":{{\"err\":{:?}}}}}}}", e.to_string()),
            },
            // watching: nothing ever changes as far as the watcher sees; the
            // checks say themselves when a node's view is refreshed
            _ => {
                let mut rest = [0u8; 256];
                while sock.read(&mut rest).await? > 0 {}
                return Ok(());
            }
        };
        let head = format!("HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n", answer.len());
        let mut out = head.into_bytes();
        out.extend_from_slice(answer.as_bytes());
        sock.write_all(&out).await?;
    }
}
