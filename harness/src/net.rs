//! A world of its own for `MethodLib::cc_lib`: a scratch cache directory, and an HTTPS server (reached as a
//! proxy on the loopback interface) whose behaviour the histories choose.
use openssl::{
    asn1::Asn1Time,
    bn::BigNum,
    ec::{EcGroup, EcKey},
    hash::MessageDigest,
    nid::Nid,
    pkey::{PKey, Private},
    ssl::{SslAcceptor, SslMethod},
    x509::{
        extension::{BasicConstraints, KeyUsage, SubjectAlternativeName},
        X509NameBuilder, X509,
    },
};
use serde_json::{json, Value};
use std::{
    fs,
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    os::unix::fs::PermissionsExt,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

const HOST: &str = "raw.githubusercontent.com";

#[derive(Clone)]
struct Behaviour {
    mode: String,
    body: Vec<u8>,
    status: u64,
    /// How much of the answer is sent, where the mode cuts it short
    part: usize,
}

pub struct Net {
    root: PathBuf,
    what: Mutex<(u64, Behaviour)>,
    seen: AtomicU64,
    conns: AtomicUsize,
}

static mut NET: Option<Arc<Net>> = None;

#[allow(static_mut_refs)]
pub fn net() -> &'static Arc<Net> {
    unsafe { NET.as_ref().expect("VHARNESS no net") }
}

fn key() -> PKey<Private> {
    let group = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap();
    PKey::from_ec_key(EcKey::generate(&group).unwrap()).unwrap()
}

fn cert(name: &str, serial: u32, k: &PKey<Private>, issuer: Option<(&X509, &PKey<Private>)>) -> X509 {
    let mut n = X509NameBuilder::new().unwrap();
    n.append_entry_by_text("CN", name).unwrap();
    let n = n.build();
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    b.set_serial_number(&BigNum::from_u32(serial).unwrap().to_asn1_integer().unwrap()).unwrap();
    b.set_subject_name(&n).unwrap();
    b.set_issuer_name(issuer.map_or(&n, |(c, _)| c.subject_name())).unwrap();
    b.set_pubkey(k).unwrap();
    b.set_not_before(&Asn1Time::from_unix(0).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_unix(250_000_000_000).unwrap()).unwrap();
    match issuer {
        None => {
            b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
            b.append_extension(KeyUsage::new().critical().key_cert_sign().crl_sign().build().unwrap()).unwrap();
        }
        Some((c, _)) => {
            let e = SubjectAlternativeName::new().dns(HOST).build(&b.x509v3_context(Some(c), None)).unwrap();
            b.append_extension(e).unwrap();
        }
    }
    b.sign(issuer.map_or(k, |(_, k)| k), MessageDigest::sha256()).unwrap();
    b.build()
}

fn acceptor(c: &X509, k: &PKey<Private>) -> SslAcceptor {
    let mut a = SslAcceptor::mozilla_intermediate(SslMethod::tls()).unwrap();
    a.set_private_key(k).unwrap();
    a.set_certificate(c).unwrap();
    a.build()
}

/// Called before anything else runs
pub fn init() {
    // (a process which died may have left one with the same number)
    let root = (0..1000)
        .map(|i| std::env::temp_dir().join(format!("vh-cc-{}-{}", std::process::id(), i)))
        .find(|d| fs::create_dir(d).is_ok())
        .expect("no directory");
    fs::set_permissions(&root, fs::Permissions::from_mode(0o777)).unwrap();
    let (ck, sk, xk) = (key(), key(), key());
    let ca = cert("vh ca", 1, &ck, None);
    let good = acceptor(&cert(HOST, 2, &sk, Some((&ca, &ck))), &sk);
    // Signed by nobody who is trusted
    let other = cert("vh other", 3, &xk, None);
    let bad = acceptor(&cert(HOST, 4, &sk, Some((&other, &xk))), &sk);
    fs::write(root.join("ca.pem"), ca.to_pem().unwrap()).unwrap();
    // Permissions mean nothing to root
    unsafe {
        // (where nobody else can be become, the permissions are as they are: they are always tried)
        if libc::getuid() == 0 && std::os::unix::fs::chown(&root, Some(65534), Some(65534)).is_ok() {
            libc::setgroups(0, std::ptr::null());
            libc::setgid(65534);
            libc::setuid(65534);
        }
    }
    let (listener, port) = (0..200)
        .find_map(|i| {
            let port = 20000 + (std::process::id() * 7 + i * 131) % 10000;
            TcpListener::bind(("127.0.0.1", port as u16)).ok().map(|l| (l, port as u16))
        })
        .expect("no port");
    let proxy = format!("http://127.0.0.1:{}", port);
    for (k, v) in [
        ("SSL_CERT_FILE", root.join("ca.pem").to_str().unwrap()),
        ("SSL_CERT_DIR", root.to_str().unwrap()),
        ("XDG_CACHE_HOME", root.join("cache").to_str().unwrap()),
        ("HOME", root.join("home").to_str().unwrap()),
        ("HTTPS_PROXY", &proxy),
        ("https_proxy", &proxy),
        ("HTTP_PROXY", &proxy),
        ("http_proxy", &proxy),
    ] {
        std::env::set_var(k, v);
    }
    for k in ["NO_PROXY", "no_proxy", "ALL_PROXY", "all_proxy", "REQUEST_METHOD"] {
        std::env::remove_var(k);
    }
    let n = Arc::new(Net {
        root,
        what: Mutex::new((0, Behaviour { mode: "down".into(), body: vec![], status: 200, part: 0 })),
        seen: AtomicU64::new(0),
        conns: AtomicUsize::new(0),
    });
    unsafe { NET = Some(n.clone()) };
    std::thread::spawn(move || {
        let mut listener = Some(listener);
        listener.as_ref().unwrap().set_nonblocking(true).unwrap();
        let (good, bad) = (Arc::new(good), Arc::new(bad));
        loop {
            let (serial, b) = n.what.lock().unwrap().clone();
            if b.mode == "down" {
                listener = None;
            } else if listener.is_none() {
                match TcpListener::bind(("127.0.0.1", port)) {
                    Ok(l) => {
                        l.set_nonblocking(true).unwrap();
                        listener = Some(l);
                    }
                    Err(_) => {
                        std::thread::sleep(Duration::from_millis(5));
                        continue;
                    }
                }
            }
            n.seen.store(serial, Ordering::SeqCst);
            match listener.as_ref().map(|l| l.accept()) {
                Some(Ok((s, _))) => {
                    n.conns.fetch_add(1, Ordering::SeqCst);
                    let acc = if b.mode == "badtls" { bad.clone() } else { good.clone() };
                    std::thread::spawn(move || {
                        let _ = serve(s, b, &acc);
                    });
                }
                _ => std::thread::sleep(Duration::from_micros(300)),
            }
        }
    });
}

pub fn finish() {
    let _ = fs::remove_dir_all(&net().root);
}

fn head(s: &mut impl Read) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    let mut b = [0];
    while !v.ends_with(b"\r\n\r\n") {
        if s.read(&mut b)? == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        v.push(b[0]);
    }
    Ok(v)
}

fn serve(mut s: TcpStream, b: Behaviour, acc: &SslAcceptor) -> std::io::Result<()> {
    s.set_nonblocking(false)?;
    s.set_read_timeout(Some(Duration::from_secs(5)))?;
    s.set_nodelay(true)?;
    if b.mode == "drop" {
        return Ok(());
    }
    let h = head(&mut s)?;
    if b.mode == "proxy" {
        return s.write_all(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n");
    }
    if !h.starts_with(b"CONNECT ") {
        // Asked for without encryption
        return answer(&mut s, &b);
    }
    s.write_all(b"HTTP/1.1 200 OK\r\n\r\n")?;
    if b.mode == "notls" {
        return s.write_all(b"this is not TLS\r\n\r\n");
    }
    let mut t = match acc.accept(s) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    if head(&mut t)?.starts_with(concat!("GET ", "/kneasle/cc-method-lib/master/cccbr-methods.json", " ").as_bytes()) {
        answer(&mut t, &b)?;
    } else {
        t.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 14\r\n\r\n404: Not Found")?;
        t.flush()?;
    }
    if b.mode != "short" && b.mode != "cut" {
        let _ = t.shutdown();
    }
    Ok(())
}

fn answer(t: &mut impl Write, b: &Behaviour) -> std::io::Result<()> {
    let part = &b.body[..b.part.min(b.body.len())];
    let start = format!("HTTP/1.1 {} X\r\nContent-Type: text/plain; charset=utf-8\r\n", b.status);
    let mut v = start.into_bytes();
    match b.mode.as_str() {
        "plain" => {
            v.extend(format!("Content-Length: {}\r\n\r\n", b.body.len()).bytes());
            v.extend(&b.body);
        }
        // Less is sent than was announced
        "short" => {
            v.extend(format!("Content-Length: {}\r\n\r\n", b.body.len() + 1).bytes());
            v.extend(part);
        }
        "chunked" | "cut" => {
            v.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let (x, y) = b.body.split_at(b.part.min(b.body.len()));
            for c in [x, y] {
                if !c.is_empty() {
                    v.extend(format!("{:x}\r\n", c.len()).bytes());
                    v.extend(c);
                    v.extend(b"\r\n");
                }
                if b.mode == "cut" {
                    break;
                }
            }
            if b.mode != "cut" {
                v.extend(b"0\r\n\r\n");
            }
        }
        "close" => {
            v.extend(b"Connection: close\r\n\r\n");
            v.extend(&b.body);
        }
        "garbage" => v = b"\x00\xff garbage\r\n\r\n".to_vec(),
        "silent" => v = vec![],
        m => {
            eprintln!("VHARNESS mode {}", m);
            std::process::exit(4);
        }
    }
    t.write_all(&v)?;
    t.flush()
}

impl Net {
    fn file(&self) -> PathBuf {
        self.root.join("cache").join("cccbr-methods.json")
    }
    fn clear(&self) {
        let c = self.root.join("cache");
        let _ = fs::set_permissions(&c, fs::Permissions::from_mode(0o755));
        let _ = fs::set_permissions(self.file(), fs::Permissions::from_mode(0o755));
        // (whatever it has become)
        let _ = fs::remove_file(&c);
        let _ = fs::remove_dir_all(&c);
    }
    /// Puts the cache into a state; returns what may then be done with it
    pub fn set_cache(&self, kind: &str, mode: u32, data: &[u8]) -> Value {
        self.clear();
        let f = self.file();
        let d = f.parent().unwrap().to_owned();
        if kind != "nodir" {
            fs::create_dir(&d).unwrap();
        }
        match kind {
            "nodir" | "none" => (),
            "dir" => fs::create_dir(&f).unwrap(),
            "dangling" => std::os::unix::fs::symlink(d.join("no").join("such"), &f).unwrap(),
            "link" => {
                fs::write(d.join("other"), data).unwrap();
                fs::set_permissions(d.join("other"), fs::Permissions::from_mode(mode)).unwrap();
                std::os::unix::fs::symlink("other", &f).unwrap();
            }
            "file" => {
                fs::write(&f, data).unwrap();
                fs::set_permissions(&f, fs::Permissions::from_mode(mode)).unwrap();
            }
            // Nothing can be created
            "rodir" => fs::set_permissions(&d, fs::Permissions::from_mode(0o555)).unwrap(),
            k => panic!("VHARNESS cache {}", k),
        }
        let probe = |p: &Path| {
            let rd = fs::File::open(p).and_then(|mut f| f.read(&mut [0])).is_ok();
            let wr = fs::OpenOptions::new().write(true).open(p).is_ok();
            (rd, wr)
        };
        let (rd, mut wr) = probe(&f);
        if !f.exists() {
            // Could it be created?
            wr = fs::OpenOptions::new().write(true).create_new(true).open(&f).is_ok();
            if wr {
                fs::remove_file(&f).unwrap();
            }
        }
        json!({"t": "ok", "rd": rd, "wr": wr})
    }
    pub fn set_server(&self, mode: &str, status: u64, body: Vec<u8>, part: usize) {
        let want = {
            let mut w = self.what.lock().unwrap();
            w.0 += 1;
            w.1 = Behaviour { mode: mode.into(), body, status, part };
            w.0
        };
        while self.seen.load(Ordering::SeqCst) < want {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    pub fn reset_conns(&self) {
        self.conns.store(0, Ordering::SeqCst);
    }
    pub fn conns(&self) -> usize {
        // Anything which is still to be accepted
        std::thread::sleep(Duration::from_millis(2));
        self.conns.load(Ordering::SeqCst)
    }
    /// What is now in the cache: (kind, bytes)
    pub fn cached(&self) -> (String, Vec<u8>) {
        let f = self.file();
        match fs::metadata(&f) {
            Err(_) => ("none".into(), vec![]),
            Ok(m) if m.is_dir() => ("dir".into(), vec![]),
            Ok(m) => {
                let old = m.permissions();
                fs::set_permissions(&f, fs::Permissions::from_mode(0o600)).unwrap();
                let v = fs::read(&f).unwrap();
                fs::set_permissions(&f, old).unwrap();
                ("file".into(), v)
            }
        }
    }
}
