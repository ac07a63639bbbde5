//! Data nodes that answer a ping and nothing else. One listener stands for all
//! of them: every node of every case has a loopback address of its own.
use std::collections::HashSet;
use std::net::{IpAddr, Ipv4Addr};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Mutex, OnceLock};

use protos::kv_service::tskv_service_server::{TskvService, TskvServiceServer};
use protos::kv_service::*;
use tonic::transport::server::TcpIncoming;
use tonic::{Request, Response, Status};

struct Nodes;

fn down() -> &'static Mutex<HashSet<Ipv4Addr>> {
    static D: OnceLock<Mutex<HashSet<Ipv4Addr>>> = OnceLock::new();
    D.get_or_init(Default::default)
}

type Nothing = futures::stream::Empty<Result<BatchBytesResponse, Status>>;

#[tonic::async_trait]
impl TskvService for Nodes {
    async fn ping(&self, r: Request<PingRequest>) -> Result<Response<PingResponse>, Status> {
        if let Some(IpAddr::V4(ip)) = r.local_addr().map(|a| a.ip()) {
            if down().lock().unwrap_or_else(|e| e.into_inner()).contains(&ip) {
                return Err(Status::unavailable("down"));
            }
        }
        Ok(Response::new(PingResponse { version: 1, body: vec![] }))
    }
    type DownloadFileStream = Nothing;
    async fn download_file(&self, _: Request<DownloadFileRequest>) -> Result<Response<Nothing>, Status> {
        Err(Status::unimplemented(""))
    }
    type TagScanStream = Nothing;
    async fn tag_scan(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<Nothing>, Status> {
        Err(Status::unimplemented(""))
    }
    type QueryRecordBatchStream = Nothing;
    async fn query_record_batch(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<Nothing>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn raft_write(&self, _: Request<RaftWriteCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn admin_request(&self, _: Request<AdminCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        Err(Status::unimplemented(""))
    }
}

static PORT: OnceLock<u16> = OnceLock::new();
static NEXT: AtomicU32 = AtomicU32::new(1);

/// Starts the listener; once per process.
pub fn start(rt: &tokio::runtime::Runtime) {
    PORT.get_or_init(|| {
        let l = std::net::TcpListener::bind("0.0.0.0:0").expect("loopback listener");
        l.set_nonblocking(true).unwrap();
        let port = l.local_addr().unwrap().port();
        rt.spawn(async move {
            let l = tokio::net::TcpListener::from_std(l).unwrap();
            let incoming = TcpIncoming::from_listener(l, true, None).expect("listener");
            let _ = tonic::transport::Server::builder().add_service(TskvServiceServer::new(Nodes)).serve_with_incoming(incoming).await;
        });
        port
    });
}

/// The base of the addresses of a case's nodes.
pub fn base() -> u32 {
    NEXT.fetch_add(1, Ordering::Relaxed) % 60_000
}

fn ip(base: u32, node: u64) -> Ipv4Addr {
    Ipv4Addr::new(127, 1 + (base >> 8) as u8, base as u8, node as u8)
}

pub fn addr(base: u32, node: u64) -> String {
    format!("{}:{}", ip(base, node), PORT.get().expect("started"))
}

pub fn set_down(base: u32, node: u64, is: bool) {
    let mut d = down().lock().unwrap_or_else(|e| e.into_inner());
    if is {
        d.insert(ip(base, node));
    } else {
        d.remove(&ip(base, node));
    }
}

pub fn is_down(addr: &str) -> bool {
    let ip: Option<Ipv4Addr> = addr.split(':').next().and_then(|s| s.parse().ok());
    ip.is_some_and(|ip| down().lock().unwrap_or_else(|e| e.into_inner()).contains(&ip))
}
