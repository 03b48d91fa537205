//! A stand-in for the web: an HTTP proxy on the loopback interface which answers every request for any
//! host itself, over TLS with a certificate which is only trusted by this process.  It counts what it
//! is asked, and can fail in various ways.

use std::{
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex, OnceLock,
    },
    time::Duration,
};

use openssl::{
    asn1::Asn1Time,
    bn::{BigNum, MsbOption},
    ec::{EcGroup, EcKey},
    hash::MessageDigest,
    nid::Nid,
    pkey::PKey,
    ssl::{SslAcceptor, SslMethod},
    x509::{
        extension::{BasicConstraints, SubjectAlternativeName},
        X509NameBuilder, X509,
    },
};

#[derive(Debug, Clone)]
pub enum Mode {
    /// Not reachable
    Offline,
    /// The proxy refuses to connect
    Refused,
    /// The TLS handshake succeeds, but then the connection is closed
    CloseAfterTls,
    /// Garbage instead of a HTTP response
    Garbage(Vec<u8>),
    /// A response with a status & body
    Body(u16, Vec<u8>),
    /// The response claims to have this many more bytes than it has
    Short(Vec<u8>, usize),
    /// A chunked response which stops after some bytes
    ChunkedCut(Vec<u8>),
    /// A complete chunked response
    Chunked(Vec<u8>),
}

static MODE: Mutex<Mode> = Mutex::new(Mode::Offline);
pub static CONNECTIONS: AtomicU64 = AtomicU64::new(0);
pub static RESPONSES: AtomicU64 = AtomicU64::new(0);
static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

pub fn set(m: Mode) {
    *MODE.lock().unwrap() = m;
}

/// The directory which this process pretends is its home
pub fn scratch() -> &'static PathBuf {
    SCRATCH.get().expect("web::start() wasn't called")
}

pub fn start() {
    let dir = std::env::temp_dir().join(format!("bfmon-cc-{}-{}", std::process::id(), std::time::UNIX_EPOCH.elapsed().unwrap().subsec_nanos()));
    std::fs::create_dir_all(dir.join("home")).unwrap();
    std::fs::create_dir_all(dir.join("cache")).unwrap();
    SCRATCH.set(dir.clone()).unwrap();

    // A certificate for any name we're asked for
    let group = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap();
    let key = PKey::from_ec_key(EcKey::generate(&group).unwrap()).unwrap();
    let mut name = X509NameBuilder::new().unwrap();
    name.append_entry_by_nid(Nid::COMMONNAME, "bfmon stand-in").unwrap();
    let name = name.build();
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    let mut serial = BigNum::new().unwrap();
    serial.rand(100, MsbOption::MAYBE_ZERO, false).unwrap();
    b.set_serial_number(&serial.to_asn1_integer().unwrap()).unwrap();
    b.set_subject_name(&name).unwrap();
    b.set_issuer_name(&name).unwrap();
    b.set_not_before(&Asn1Time::from_unix(0).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::days_from_now(3650).unwrap()).unwrap();
    b.set_pubkey(&key).unwrap();
    b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
    let san = SubjectAlternativeName::new()
        .dns("raw.githubusercontent.com")
        .dns("*.githubusercontent.com")
        .dns("github.com")
        .dns("*.github.com")
        .dns("*.cccbr.org.uk")
        .build(&b.x509v3_context(None, None))
        .unwrap();
    b.append_extension(san).unwrap();
    b.sign(&key, MessageDigest::sha256()).unwrap();
    let cert = b.build();
    let pem = dir.join("cert.pem");
    std::fs::write(&pem, cert.to_pem().unwrap()).unwrap();

    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    let proxy = format!("http://{}", listener.local_addr().unwrap());
    // Only this thread is running yet
    std::env::set_var("SSL_CERT_FILE", &pem);
    std::env::set_var("HOME", dir.join("home"));
    std::env::set_var("XDG_CACHE_HOME", dir.join("cache"));
    for v in ["HTTPS_PROXY", "https_proxy", "HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy"] {
        std::env::set_var(v, &proxy);
    }
    for v in ["NO_PROXY", "no_proxy", "REQUEST_METHOD"] {
        std::env::remove_var(v);
    }

    let mut acceptor = SslAcceptor::mozilla_intermediate(SslMethod::tls()).unwrap();
    acceptor.set_private_key(&key).unwrap();
    acceptor.set_certificate(&cert).unwrap();
    let acceptor = acceptor.build();
    std::thread::spawn(move || {
        for s in listener.incoming().flatten() {
            CONNECTIONS.fetch_add(1, Ordering::SeqCst);
            let acceptor = acceptor.clone();
            std::thread::spawn(move || serve(s, &acceptor));
        }
    });
}

fn read_head(s: &mut impl Read) -> Option<String> {
    let mut head = vec![];
    let mut byte = [0];
    while !head.ends_with(b"\r\n\r\n") {
        if head.len() > 20_000 || s.read(&mut byte).ok()? == 0 {
            return None;
        }
        head.push(byte[0]);
    }
    Some(String::from_utf8_lossy(&head).into_owned())
}

fn serve(mut s: TcpStream, acceptor: &SslAcceptor) -> Option<()> {
    s.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
    let mode = MODE.lock().unwrap().clone();
    if matches!(mode, Mode::Offline) {
        return None;
    }
    let head = read_head(&mut s)?;
    if head.starts_with("CONNECT") {
        if matches!(mode, Mode::Refused) {
            s.write_all(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n").ok()?;
            return None;
        }
        s.write_all(b"HTTP/1.1 200 Connection established\r\n\r\n").ok()?;
        let mut tls = acceptor.accept(s).ok()?;
        read_head(&mut tls)?;
        respond(&mut tls, mode)?;
        let _ = tls.shutdown();
    } else {
        // Plain HTTP
        if matches!(mode, Mode::Refused) {
            return None;
        }
        respond(&mut s, mode)?;
    }
    None
}

fn respond(s: &mut impl Write, mode: Mode) -> Option<()> {
    RESPONSES.fetch_add(1, Ordering::SeqCst);
    let head = |status: u16, len: usize| format!("HTTP/1.1 {} X\r\nContent-Type: text/plain; charset=utf-8\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", status, len);
    let chunked = "HTTP/1.1 200 OK\r\nContent-Type: text/plain; charset=utf-8\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n";
    match mode {
        Mode::Offline | Mode::Refused | Mode::CloseAfterTls => {}
        Mode::Garbage(g) => s.write_all(&g).ok()?,
        Mode::Body(status, body) => {
            s.write_all(head(status, body.len()).as_bytes()).ok()?;
            s.write_all(&body).ok()?;
        }
        Mode::Short(body, missing) => {
            s.write_all(head(200, body.len() + missing).as_bytes()).ok()?;
            s.write_all(&body).ok()?;
        }
        Mode::ChunkedCut(body) | Mode::Chunked(body) if body.is_empty() => s.write_all(chunked.as_bytes()).ok()?,
        Mode::ChunkedCut(body) => {
            s.write_all(chunked.as_bytes()).ok()?;
            s.write_all(format!("{:x}\r\n", body.len()).as_bytes()).ok()?;
            s.write_all(&body).ok()?;
            s.write_all(b"\r\n").ok()?;
        }
        Mode::Chunked(body) => {
            s.write_all(chunked.as_bytes()).ok()?;
            for c in body.chunks(7 + body.len() / 3) {
                s.write_all(format!("{:x}\r\n", c.len()).as_bytes()).ok()?;
                s.write_all(c).ok()?;
                s.write_all(b"\r\n").ok()?;
            }
            s.write_all(b"0\r\n\r\n").ok()?;
        }
    }
    s.flush().ok()
}
