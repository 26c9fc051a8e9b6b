//! One broker under test: the real MqttServer on a runtime of its own.
use crate::env::*;
#[cfg(feature = "noise")]
use apiformes_server_lib::Permeability;
use apiformes_server_lib::{MqttServer, MqttServerConfig};
use refmqtt::rng::Rng;
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::Duration;

static NEXT: AtomicUsize = AtomicUsize::new(0);
pub const NOISE: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
/// (private, public) key of the brokers of this process
pub fn keys() -> &'static ([u8; 32], [u8; 32]) {
    static K: OnceLock<([u8; 32], [u8; 32])> = OnceLock::new();
    K.get_or_init(|| {
        let k = snow::Builder::new(NOISE.parse().unwrap()).generate_keypair().unwrap();
        (k.private[..].try_into().unwrap(), k.public[..].try_into().unwrap())
    })
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub keep_alive: u16,
    pub queue: usize,
    pub max: u32,
    pub strict: bool,
    pub workers: usize,
    /// only the encrypted (true) or only the plain listener
    pub only: Option<bool>,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { keep_alive: 60, queue: 1 << 20, max: 65536, strict: false, workers: 2, only: None }
    }
}
impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            keep_alive: 60,
            queue: *r.pick(&[0usize, 1, 100, 400, 1000, 5000, 1 << 20]),
            max: *r.pick(&[65536u32, 65536, 100_000, 1 << 20]),
            strict: false,
            workers: *r.pick(&[1usize, 2, 2, 3, 4]),
            only: None,
        }
    }
}
pub struct Broker {
    pub id: usize,
    pub cfg: Cfg,
    pub mqtt: SocketAddr,
    pub noise: SocketAddr,
    /// public key of the encrypted listener
    pub key: [u8; 32],
    rt: Option<tokio::runtime::Runtime>,
    server: Option<MqttServer>,
}
fn free_port(ip: IpAddr) -> u16 {
    TcpListener::bind((ip, 0)).unwrap().local_addr().unwrap().port()
}
impl Broker {
    pub fn start(cfg: Cfg) -> Res<Broker> {
        let id = NEXT.fetch_add(1, SeqCst);
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(cfg.workers)
            .thread_name(format!("srv-{id}"))
            .on_thread_start(move || crate::alloc::own(id))
            .enable_all()
            .build()
            .unwrap();
        // an address of its own, so that ports do not collide with anything else
        let pid = std::process::id() as usize;
        let ip = IpAddr::V4(Ipv4Addr::new(127, 1 + ((pid / 7) % 250) as u8, 1 + ((pid + id / 250) % 250) as u8, 1 + (id % 250) as u8));
        for attempt in 0.. {
            let mqtt = SocketAddr::new(ip, free_port(ip));
            let noise = if cfg!(feature = "noise") { SocketAddr::new(ip, free_port(ip)) } else { mqtt };
            let c = MqttServerConfig {
                mqtt_socketaddr: Some(mqtt).filter(|_| cfg.only != Some(true) || !cfg!(feature = "noise")),
                keep_alive: cfg.keep_alive,
                dispatcher_queue_size: cfg.queue,
                max_packet_size: cfg.max,
                #[cfg(feature = "noise")]
                noise_socketaddr: Some(noise).filter(|_| cfg.only != Some(false)),
                #[cfg(feature = "noise")]
                channel_permeability: if cfg.strict { Permeability::Strict } else { Permeability::Permissive },
                #[cfg(feature = "noise")]
                private_key: keys().0,
            };
            // new() runs on the driver thread: a panic in it is the broker's, too
            let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(MqttServer::new(c))));
            match made {
                Err(_) => return bad("starting the broker panics", format!("{cfg:?}")),
                Ok(Ok(server)) => return Ok(Broker { id, cfg, mqtt, noise, key: keys().1, rt: Some(rt), server: Some(server) }),
                Ok(Err(e)) if attempt < 20 && mqtt.port() != 0 => {
                    let _ = e;
                    std::thread::sleep(Duration::from_millis(20));
                }
                Ok(Err(e)) => return bad("starting the broker fails", format!("{cfg:?} {e:?}")),
            }
        }
        unreachable!()
    }
    /// a broker that runs elsewhere
    pub fn external(cfg: Cfg, mqtt: SocketAddr, noise: SocketAddr, key: [u8; 32]) -> Broker {
        Broker { id: NEXT.fetch_add(1, SeqCst), cfg, mqtt, noise, key, rt: None, server: None }
    }
    fn srv(&self) -> &MqttServer {
        self.server.as_ref().unwrap()
    }
    fn ask<T>(&self, what: &str, f: impl std::future::Future<Output = T>) -> Res<T> {
        let d = limit();
        let mut f = Box::pin(f);
        self.rt.as_ref().unwrap().block_on(async {
            loop {
                match tokio::time::timeout(Duration::from_millis(200), &mut f).await {
                    Ok(v) => return Ok(v),
                    Err(_) if d.over() => return bad(format!("{what} does not answer"), ""),
                    Err(_) => (),
                }
            }
        })
    }
    /// identifiers of the registered clients
    pub fn clients(&self) -> Res<Vec<String>> {
        Ok(self.ask("the list of clients", self.srv().clients())?.iter().map(|s| s.to_string()).collect())
    }
    pub fn has_client(&self, id: &str) -> Res<bool> {
        Ok(self.clients()?.iter().any(|c| c == id))
    }
    /// client -> (qos, flags) for everyone the table holds for this topic
    /// (built as `outside`: those who are expected there)
    pub fn subscribers(&self, topic: &str, _expected: &[&str]) -> Res<HashMap<String, u8>> {
        #[cfg(feature = "outside")]
        {
            let _ = topic;
            return Ok(_expected.iter().map(|s| (s.to_string(), 0)).collect());
        }
        #[cfg(not(feature = "outside"))]
        Ok(self
            .ask("the subscription table", self.srv().get_topics().get_all_subscribed(topic))?
            .iter()
            .map(|(k, v)| (k.to_string(), v.flags.bits()))
            .collect())
    }
    pub fn panics(&self) -> Vec<String> {
        panics(self.id)
    }
    pub fn check_panics(&self) -> Res<()> {
        match self.panics().first() {
            Some(p) => bad("a server task panicked", p.clone()),
            None => Ok(()),
        }
    }
    /// CPU time of the server's threads so far
    pub fn cpu(&self) -> Duration {
        let want = format!("srv-{}", self.id);
        let mut ticks = 0u64;
        for e in std::fs::read_dir("/proc/self/task").unwrap().flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                let (a, b) = (s.find('(').unwrap(), s.rfind(')').unwrap());
                if s[a + 1..b] == want {
                    let f: Vec<&str> = s[b + 2..].split(' ').collect();
                    ticks += f[11].parse::<u64>().unwrap() + f[12].parse::<u64>().unwrap();
                }
            }
        }
        Duration::from_millis(ticks * 1000 / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64)
    }
    /// Shutdown through the public API; false when it does not return.
    pub fn shutdown(&mut self, d: Deadline) -> bool {
        let s = self.server.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        self.rt.as_ref().unwrap().spawn(async move {
            s.shutdown().await;
            let _ = tx.send(());
        });
        loop {
            match rx.recv_timeout(Duration::from_millis(20)) {
                Ok(()) => return true,
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return false,
                Err(_) if d.over() => return false,
                Err(_) => (),
            }
        }
    }
}
impl Drop for Broker {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}
