//! Trace context: what a caller sends is what the next hop sees.
use std::convert::Infallible;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use ::http::{HeaderMap, HeaderValue, Request};
use minitrace::collector::{SpanId, TraceId};
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};
use tower::{Layer, Service};
use trace::http::http_ctx::{grpc_append_trace_context, span_context_from_http_headers, DEFAULT_TRACE_HEADER_NAME};
use trace::http::tower_layer::TraceLayer;
use trace::span_ctx_ext::SpanContextExt;
use trace::SpanContext;

pub fn check() -> Check {
    Check {
        property: "C35",
        level: "exploration",
        assumptions: &["minitrace spans are disabled in this build (its `enable` feature is off, as in the repository's default build of these crates); the context that travels is checked, not the collected spans"],
        subs: vec![
            Sub { name: "text", rule: "random trace/span ids: to_string is lowercase hex `trace:span` and reads back to the same ids; non-trivial: a trace id beyond 64 bits", quick: 1_000_000, thorough: 40_000_000, serial: false, f: text },
            Sub { name: "parse", rule: "arbitrary and mutated texts vs a reference parser; non-trivial: exactly two parts", quick: 1_000_000, thorough: 40_000_000, serial: false, f: parse },
            Sub { name: "hops", rule: "gRPC metadata → HTTP headers → TraceLayer over several hops, with other headers, repeated or invalid values; non-trivial: a context arrived through two hops, or an invalid one was dropped", quick: 250_000, thorough: 10_000_000, serial: false, f: hops },
        ],
    }
}

fn ids(g: &mut G) -> (u128, u64) {
    let t = match g.below(4) {
        0 => g.below(3) as u128,
        1 => u128::MAX - g.below(2) as u128,
        2 => (g.u64_any() as u128) << 64 | g.u64_any() as u128,
        _ => (g.bits() as u128) << 64 | g.bits() as u128,
    };
    let s = if g.bool() { g.u64_any() } else { g.bits() };
    (t, s)
}

fn ctx(t: (u128, u64)) -> SpanContext {
    SpanContext::new(TraceId(t.0), SpanId(t.1))
}

fn id_of(c: &SpanContext) -> (u128, u64) {
    (c.trace_id.0, c.span_id.0)
}

fn text(g: &mut G) -> R {
    let t = ids(g);
    g.show("ids", &t);
    if t.0 >> 64 != 0 {
        g.nontrivial();
    }
    let s = SpanContextExt::to_string(&ctx(t));
    ensure_eq!(s, format!("{:x}:{:x}", t.0, t.1), "to_string");
    match <SpanContext as SpanContextExt>::from_str(&s) {
        Ok(c) => ensure_eq!(id_of(&c), t, "from_str({s:?})"),
        Err(e) => fail!("from_str({s:?}): {e}"),
    }
    Ok(())
}

/// hex digits with an optional leading +, at most `bits` bits
fn hex(s: &str, bits: u32) -> Option<u128> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in d.chars() {
        let x = c.to_digit(16)? as u128;
        if v >> 124 != 0 {
            return None;
        }
        v = v << 4 | x;
    }
    (bits == 128 || v >> bits == 0).then_some(v)
}

fn reference(s: &str) -> Option<(u128, u64)> {
    let p: Vec<&str> = s.split(':').collect();
    if p.len() != 2 {
        return None;
    }
    Some((hex(p[0], 128)?, hex(p[1], 64)? as u64))
}

fn gen_text(g: &mut G) -> String {
    let t = ids(g);
    let mut s = match g.below(7) {
        5 => {
            // leading zeros do not change a number, however many
            let (z, y) = (g.usize(0, 40), g.usize(0, 40));
            format!("{}{:x}:{}{:x}", "0".repeat(z), t.0, "0".repeat(y), t.1)
        }
        6 => format!("{}{:x}:{}{:x}", g.pick(&["+", "-", "", "0+", "++", " "]), t.0, g.pick(&["+", "-", "", "0+", "++", " "]), t.1),
        0 => format!("{:x}:{:x}", t.0, t.1),
        1 => format!("{:X}:{:x}", t.0, t.1),
        2 => format!("{:x}:{:x}", t.1, t.0),
        3 => format!("{:x}{}{:x}", t.0, g.pick(&[":", "::", "-", "", ": "]), t.1),
        _ => g.string_of(&['0', '9', 'a', 'F', 'g', ':', '+', '-', ' '], 0, 40),
    };
    if g.chance(1, 4) {
        let k = g.below(s.len() as u64 + 1) as usize;
        if s.is_char_boundary(k) {
            s.insert(k, *g.pick(&['0', 'f', ':', ' ', 'x', '_', 'é', '+', '-']));
        }
    }
    s
}

fn parse(g: &mut G) -> R {
    let s = gen_text(g);
    g.show("text", &s);
    if s.matches(':').count() == 1 {
        g.nontrivial();
    }
    let got = <SpanContext as SpanContextExt>::from_str(&s).ok().map(|c| id_of(&c));
    ensure_eq!(got, reference(&s), "from_str({s:?})");
    Ok(())
}

#[derive(Clone, Default)]
struct Inner {
    seen: Arc<Mutex<Vec<(Option<(u128, u64)>, HeaderMap, String)>>>,
}

impl Service<Request<String>> for Inner {
    type Response = u32;
    type Error = Infallible;
    type Future = std::future::Ready<Result<u32, Infallible>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: Request<String>) -> Self::Future {
        let c = r.extensions().get::<SpanContext>().map(id_of);
        self.seen.lock().unwrap().push((c, r.headers().clone(), r.body().clone()));
        std::future::ready(Ok(7))
    }
}

fn hops(g: &mut G) -> R {
    let auto = g.bool();
    let mut inner = Inner::default();
    let seen = inner.seen.clone();
    let layer = TraceLayer::new(auto, "test");
    let mut svc = if g.bool() { layer.layer(inner.clone()) } else { layer.clone().layer(inner.clone()).clone() };
    let n = g.usize(1, 4);
    let mut carry: Option<SpanContext> = None;
    let mut hop_count = 0;
    for i in 0..n {
        let mut headers = HeaderMap::new();
        if g.bool() {
            headers.insert("other", HeaderValue::from_static("1:2"));
        }
        // what the request says
        let (want, valid): (Option<(u128, u64)>, bool) = match g.below(4) {
            0 => {
                g.note(|| "no header".into());
                carry = None;
                (None, true)
            }
            1 => {
                let s = gen_text(g);
                g.show("header", &s);
                match HeaderValue::from_str(&s) {
                    Ok(v) => {
                        let readable = v.to_str().is_ok();
                        headers.insert(DEFAULT_TRACE_HEADER_NAME, v);
                        let r = if readable { reference(&s) } else { None };
                        carry = r.map(ctx);
                        (r, r.is_some())
                    }
                    Err(_) => {
                        carry = None;
                        (None, true)
                    }
                }
            }
            k => {
                // as a gRPC client sends it
                let c = match (&carry, k) {
                    (Some(c), 2) => {
                        hop_count += 1;
                        *c
                    }
                    _ => ctx(ids(g)),
                };
                g.show("grpc", &id_of(&c));
                let mut md = tonic::metadata::MetadataMap::new();
                if g.bool() {
                    // an older value is replaced
                    md.insert(DEFAULT_TRACE_HEADER_NAME, "1:1".parse().unwrap());
                }
                if let Err(e) = grpc_append_trace_context(Some(&c), &mut md) {
                    fail!("grpc_append_trace_context: {e}");
                }
                let before = md.len();
                if grpc_append_trace_context(None, &mut md).is_err() || md.len() != before {
                    fail!("appending no context changes the metadata");
                }
                headers.extend(md.into_headers());
                carry = Some(c);
                (Some(id_of(&c)), true)
            }
        };
        let got = span_context_from_http_headers(&headers);
        match (&got, want) {
            (Ok(None), None) if valid => {}
            (Ok(Some(c)), Some(w)) => ensure_eq!(id_of(c), w, "context from the headers"),
            (Err(_), None) if !valid => g.nontrivial(),
            (x, w) => fail!("span_context_from_http_headers: {:?}, expected {w:?} (valid: {valid})", x.as_ref().map(|o| o.as_ref().map(id_of)).map_err(|e| e.to_string())),
        }
        let mut req = Request::new(format!("body {i}"));
        *req.headers_mut() = headers.clone();
        let out = futures::executor::block_on(svc.call(req));
        ensure_eq!(out, Ok(7), "response");
        let seen = seen.lock().unwrap();
        ensure_eq!(seen.len(), i + 1, "calls of the inner service");
        let (c, h, b) = &seen[i];
        ensure_eq!(*h, headers, "headers are passed on");
        ensure_eq!(*b, format!("body {i}"), "body is passed on");
        match (c, want) {
            (Some(c), Some(w)) => ensure_eq!(*c, w, "context in the request's extensions"),
            (None, Some(_)) => fail!("the context was lost"),
            (Some(_), None) => ensure!(auto && valid, "a context appeared from nowhere"),
            (None, None) => ensure!(!auto || !valid, "no context was generated"),
        }
    }
    if hop_count > 0 {
        g.nontrivial();
    }
    inner.seen = Default::default();
    Ok(())
}
