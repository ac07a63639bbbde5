//! HTTP protocol pieces: body encodings, error bodies.
use std::io::{Read, Write};

use derive_traits::ErrorCode;
use http_protocol::encoding::Encoding;
use http_protocol::response::ErrorResponse;
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};

pub fn check() -> Check {
    Check {
        property: "C33",
        level: "exploration",
        assumptions: &["reference codecs are the crates flate2 (gzip, deflate), zstd, snap, lz4_flex and brotli used directly"],
        subs: vec![
            Sub { name: "round_trip", rule: "1..4 bodies in a row on one thread, each through a random encoding: decode(encode(x)) = x; non-trivial: two different encodings and a body over 4 KiB", quick: 20_000, thorough: 800_000, serial: false, f: round_trip },
            Sub { name: "interop", rule: "bodies compressed by the standard codec decode to the original, and encode's output is read by the standard codec; two standard frames in a row are their concatenation or an error; non-trivial: non-empty body, not identity", quick: 20_000, thorough: 800_000, serial: false, f: interop },
            Sub { name: "damage", rule: "a compressed body is cut short or a byte is changed in a checksummed format: decode fails or returns the original; the next good body still decodes; non-trivial: decode failed", quick: 50_000, thorough: 2_000_000, serial: false, f: damage },
            Sub { name: "names", rule: "from_str_opt accepts exactly the seven content-coding names; non-trivial: a known name", quick: 25_000, thorough: 1_000_000, serial: false, f: names },
            Sub { name: "error_body", rule: "ErrorResponse of a random code and message: its text is JSON with that code and message, and reads back; non-trivial: a message with characters JSON escapes", quick: 100_000, thorough: 4_000_000, serial: false, f: error_body },
            Sub { name: "urls", rule: "HttpClient::url joins host, port and path with one slash and the right scheme; non-trivial: a path without a leading slash", quick: 2_500, thorough: 100_000, serial: false, f: urls },
        ],
    }
}

const ALL: [Encoding; 7] = [Encoding::Identity, Encoding::Gzip, Encoding::Deflate, Encoding::Brotli, Encoding::Zstd, Encoding::Snappy, Encoding::LZ4];

fn body(g: &mut G) -> Vec<u8> {
    match g.weighted(&[3, 3, 3, 1]) {
        0 => g.bytes(0, 40),
        1 => {
            // line-protocol-like text
            let n = g.below(60);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("cpu,host=h{} usage={} {}\n", g.below(4), g.below(100), 1_700_000_000_000u64 + i));
            }
            s.into_bytes()
        }
        2 => {
            let unit = g.bytes(1, 20);
            let n = g.below(2000) as usize;
            unit.iter().cycle().take(n).copied().collect()
        }
        _ => {
            // incompressible, possibly larger than any block size
            let n = match g.below(4) {
                0 => 4096 + g.below(3) as usize - 1,
                1 => 65_536 + g.below(5) as usize - 2,
                2 => g.below(10_000) as usize,
                _ => 70_000 + g.below(200_000) as usize,
            };
            let mut x = g.bits() | 1;
            (0..n)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                })
                .collect()
        }
    }
}

fn enc(e: Encoding, b: &[u8]) -> Result<Vec<u8>, String> {
    e.encode(b.to_vec()).map_err(|x| format!("{e:?} encode: {x}"))
}
fn dec(e: Encoding, b: &[u8]) -> std::io::Result<Vec<u8>> {
    e.decode(b.to_vec().into()).map(|b| b.to_vec())
}

fn round_trip(g: &mut G) -> R {
    let n = 1 + g.below(4);
    let mut kinds = vec![];
    let mut big = false;
    let mut kept = vec![];
    for i in 0..n {
        let e = *g.pick(&ALL);
        let b = body(g);
        g.note(|| format!("{i}: {e:?} {} bytes", b.len()));
        big |= b.len() > 4096;
        if !kinds.contains(&e) {
            kinds.push(e);
        }
        let c = enc(e, &b)?;
        if e == Encoding::Identity {
            ensure!(c == b, "identity changed the body");
        }
        kept.push((e, b, c.clone()));
        // decode one of the bodies encoded so far
        let (e, b, c) = kept[g.below(kept.len() as u64) as usize].clone();
        let d = dec(e, &c).map_err(|x| format!("{e:?} decode of its own output: {x}"))?;
        ensure!(d == b, "{e:?}: decode(encode(x)) has {} bytes, x has {}; first difference at {:?}", d.len(), b.len(), d.iter().zip(&b).position(|(x, y)| x != y));
    }
    if kinds.len() > 1 && big {
        g.nontrivial();
    }
    Ok(())
}

fn std_encode(e: Encoding, b: &[u8]) -> Vec<u8> {
    match e {
        Encoding::Gzip => {
            let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
            w.write_all(b).unwrap();
            w.finish().unwrap()
        }
        Encoding::Deflate => {
            let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::best());
            w.write_all(b).unwrap();
            w.finish().unwrap()
        }
        Encoding::Brotli => {
            let mut o = vec![];
            let p = brotli::enc::BrotliEncoderParams { quality: 4, ..Default::default() };
            brotli::BrotliCompress(&mut &b[..], &mut o, &p).unwrap();
            o
        }
        Encoding::Zstd => zstd::stream::encode_all(b, 5).unwrap(),
        Encoding::Snappy => {
            let mut w = snap::write::FrameEncoder::new(vec![]);
            w.write_all(b).unwrap();
            w.into_inner().unwrap()
        }
        Encoding::LZ4 => {
            let mut w = lz4_flex::frame::FrameEncoder::new(vec![]);
            w.write_all(b).unwrap();
            w.finish().unwrap()
        }
        Encoding::Identity => b.to_vec(),
    }
}

fn std_decode(e: Encoding, b: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    match e {
        Encoding::Gzip => flate2::read::GzDecoder::new(b).read_to_end(&mut o).map_err(|e| e.to_string())?,
        Encoding::Deflate => flate2::read::DeflateDecoder::new(b).read_to_end(&mut o).map_err(|e| e.to_string())?,
        Encoding::Brotli => {
            brotli::BrotliDecompress(&mut &b[..], &mut o).map_err(|e| e.to_string())?;
            0
        }
        Encoding::Zstd => {
            o = zstd::stream::decode_all(b).map_err(|e| e.to_string())?;
            0
        }
        Encoding::Snappy => snap::read::FrameDecoder::new(b).read_to_end(&mut o).map_err(|e| e.to_string())?,
        Encoding::LZ4 => lz4_flex::frame::FrameDecoder::new(b).read_to_end(&mut o).map_err(|e| e.to_string())?,
        Encoding::Identity => {
            o = b.to_vec();
            0
        }
    };
    Ok(o)
}

fn interop(g: &mut G) -> R {
    let e = *g.pick(&ALL);
    let b = body(g);
    g.note(|| format!("{e:?} {} bytes", b.len()));
    let d = dec(e, &std_encode(e, &b)).map_err(|x| format!("{e:?}: standard {e:?} data is rejected: {x}"))?;
    ensure!(d == b, "{e:?}: standard data decodes to {} bytes instead of {}", d.len(), b.len());
    let r = std_decode(e, &enc(e, &b)?).map_err(|x| format!("{e:?}: encode's output is not standard: {x}"))?;
    ensure!(r == b, "{e:?}: encode's output means {} bytes instead of {}", r.len(), b.len());
    if !b.is_empty() && e != Encoding::Identity {
        g.nontrivial();
    }
    // several standard frames (members) one after the other: all or nothing
    if matches!(e, Encoding::Zstd | Encoding::Gzip | Encoding::Snappy | Encoding::LZ4) && g.chance(1, 3) {
        let b2 = body(g);
        let mut c = std_encode(e, &b);
        c.extend(std_encode(e, &b2));
        let mut all = b.clone();
        all.extend(&b2);
        match dec(e, &c) {
            Ok(d) => ensure!(d == all, "{e:?}: two standard frames of {} and {} bytes decode to {} bytes", b.len(), b2.len(), d.len()),
            Err(x) => ensure!(e == Encoding::Gzip, "{e:?}: two standard frames of {} and {} bytes are rejected: {x}", b.len(), b2.len()),
        }
    }
    Ok(())
}

fn damage(g: &mut G) -> R {
    let e = *g.pick(&ALL[1..]);
    let mut b = body(g);
    b.truncate(5000);
    let mut c = enc(e, &b)?;
    let cut = g.bool();
    if cut {
        // these are sequences of frames (nothing at all is the empty sequence);
        // every frame (Snappy) or block (LZ4) boundary is taken as the end
        if matches!(e, Encoding::Snappy | Encoding::LZ4) || c.len() < 2 {
            return Ok(());
        }
        let k = 1 + g.below(c.len() as u64 - 1) as usize;
        c.truncate(k);
        g.note(|| format!("{e:?} {} bytes cut to {k}", b.len()));
    } else {
        // formats with a checksum over the content
        if !matches!(e, Encoding::Gzip | Encoding::Snappy) || c.len() < 30 {
            return Ok(());
        }
        let k = 18 + g.below(c.len() as u64 - 18) as usize;
        c[k] ^= 1 << g.below(8);
        g.note(|| format!("{e:?} {} bytes, byte {k} of {} changed", b.len(), c.len()));
    }
    match dec(e, &c) {
        Err(_) => g.nontrivial(),
        Ok(d) => {
            // flate2 does not look for the end of a raw deflate stream: what is
            // there is decoded, and nothing else
            let prefix = cut && e == Encoding::Deflate && b.starts_with(&d);
            if d != b && !prefix {
                return Err(pbt::Fail::with_sig(
                    if cut { format!("truncated {} body accepted", e.as_str()) } else { String::new() },
                    format!("{e:?}: a damaged body was accepted as {} bytes (the original has {})", d.len(), b.len()),
                ));
            }
        }
    }
    // the failed attempt leaves nothing behind
    let b2 = g.bytes(0, 50);
    let e2 = *g.pick(&ALL);
    let d = dec(e2, &enc(e2, &b2)?).map_err(|x| format!("{e2:?} after a failed decode: {x}"))?;
    ensure!(d == b2, "{e2:?} after a failed decode: wrong content");
    Ok(())
}

fn names(g: &mut G) -> R {
    const KNOWN: &[(&str, Encoding)] = &[
        ("gzip", Encoding::Gzip),
        ("deflate", Encoding::Deflate),
        ("br", Encoding::Brotli),
        ("zstd", Encoding::Zstd),
        ("snappy", Encoding::Snappy),
        ("lz4", Encoding::LZ4),
        ("identity", Encoding::Identity),
    ];
    let s = if g.bool() {
        g.pick(KNOWN).0.to_string()
    } else {
        match g.below(3) {
            0 => g.text(6),
            1 => {
                let mut s = g.pick(KNOWN).0.to_string();
                let k = g.below(s.len() as u64) as usize;
                s.remove(k);
                s
            }
            _ => g.pick(KNOWN).0.to_uppercase(),
        }
    };
    g.show("name", &s);
    let want = KNOWN.iter().find(|k| k.0 == s).map(|k| k.1);
    ensure_eq!(Encoding::from_str_opt(&s), want, "from_str_opt({s:?})");
    if let Some(e) = want {
        g.nontrivial();
        ensure_eq!(e.as_str(), s.as_str(), "as_str");
        let hv = e.to_header_value();
        ensure_eq!(hv.to_str().unwrap_or(""), s.as_str(), "to_header_value");
        ensure!(Encoding::iterator().any(|x| x == e), "iterator() misses {e:?}");
    }
    Ok(())
}

#[derive(Debug)]
struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ErrorCode for E {
    fn code(&self) -> &'static str {
        "030019"
    }
    fn message(&self) -> String {
        self.0.clone()
    }
}

fn error_body(g: &mut G) -> R {
    let m = g.text(20);
    g.show("message", &m);
    let r = ErrorResponse::new(&E(m.clone()));
    for (how, text) in [("Display", r.to_string()), ("to_vec", String::from_utf8_lossy(&r.to_vec()).to_string()), ("serde", serde_json::to_string(&r).unwrap())] {
        let v: serde_json::Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(e) => fail!("{how}: {text} is not JSON: {e}"),
        };
        ensure_eq!(v, serde_json::json!({"error_code": "030019", "error_message": m}), "{how}");
        let back: ErrorResponse = serde_json::from_str(&text).map_err(|e| format!("{how}: {e}"))?;
        ensure_eq!((back.code(), back.message()), ("030019", m.clone()), "{how}, read back");
    }
    if m.chars().any(|c| c == '"' || c == '\\' || c < ' ') {
        g.nontrivial();
    }
    Ok(())
}

fn urls(g: &mut G) -> R {
    use http_protocol::http_client::HttpClient;
    let host = g.pick(&["127.0.0.1", "localhost", "db.example.org", "[::1]"]).to_string();
    let port = g.below(65536) as u16;
    let (ssl, unsafe_ssl) = (g.bool(), g.bool());
    let mut path = g.string_of(&['a', 'b', '1', '?', '=', '&', '_'], 0, 12);
    if g.bool() {
        path.insert(0, '/');
    } else {
        g.nontrivial();
    }
    g.show("host,port,ssl,unsafe,path", &(&host, port, ssl, unsafe_ssl, &path));
    let c = HttpClient::new(&host, port, ssl, unsafe_ssl, &[]).map_err(|e| e.to_string())?;
    let scheme = if ssl || unsafe_ssl { "https" } else { "http" };
    let want = format!("{scheme}://{host}:{port}/{}", path.trim_start_matches('/'));
    ensure_eq!(c.url(&path), want, "url");
    for (m, r) in [("GET", c.get(&path)), ("POST", c.post(&path)), ("HEAD", c.head(&path)), ("PUT", c.put(&path)), ("PATCH", c.patch(&path)), ("DELETE", c.delete(&path))] {
        let r = r.build().map_err(|e| e.to_string())?;
        ensure_eq!(r.method().as_str(), m, "method");
        ensure_eq!(r.url().port_or_known_default(), Some(port), "port");
    }
    Ok(())
}
