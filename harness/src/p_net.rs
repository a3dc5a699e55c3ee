use crate::ctx::{run_async, Ctx, UNDECIDED};
use crate::ens;
use rand::Rng;
use scalable_mpc::protocol::network::{self, Network, ReceivedMessage, Recipient, SendMessage};
use scalable_mpc::protocol::{ProtoHandle, ProtocolIDBuilder};
use std::collections::{HashMap, HashSet};
use tokio::sync::mpsc::unbounded_channel;
use tokio::task::spawn;

pub fn ids(c: &mut Ctx) {
    let mut nums: Vec<u64> = (0..=40).collect();
    nums.extend([100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 65534, 65535, 65536, 65537, 70000]);
    for num in nums {
        c.case(format!("count/{num}"), if num < 256 { "one-byte" } else { "multi-byte" }, |rng| {
            let plen = rng.gen_range(0..9usize);
            let parent: Vec<u8> = (0..plen).map(|_| rng.gen()).collect();
            let kids: Vec<Vec<u8>> = ProtocolIDBuilder::new(&parent, num).take(num as usize + 1).collect();
            ens!(kids.len() as u64 >= num, "a builder for {num} children produced only {}", kids.len());
            let set: HashSet<&Vec<u8>> = kids.iter().collect();
            ens!(set.len() == kids.len(), "duplicate children among {num}");
            for k in &kids {
                ens!(k.starts_with(&parent), "child {k:?} does not extend parent {parent:?}");
                ens!(k.len() == kids[0].len(), "children of different lengths {} and {}", k.len(), kids[0].len());
                ens!(num == 0 || k.len() > parent.len(), "child identical to its parent");
            }
            // Deterministic: every party derives the same sequence.
            let again: Vec<Vec<u8>> = ProtocolIDBuilder::new(&parent, num).take(num as usize + 1).collect();
            ens!(kids == again, "two builders disagree");
            Ok(())
        });
    }
    // Once exhausted, no identifier is ever handed out twice.
    for num in [1u64, 2, 255] {
        c.case(format!("exhaust/{num}"), "exhaustion", |_| {
            let parent = vec![7u8];
            let mut b = ProtocolIDBuilder::new(&parent, num);
            let mut seen = HashSet::new();
            for _ in 0..70000 {
                match b.next() {
                    Some(k) => ens!(seen.insert(k.clone()), "identifier {k:?} handed out twice"),
                    None => break,
                }
            }
            ens!(seen.len() as u64 >= num, "only {} identifiers", seen.len());
            Ok(())
        });
    }
    for k in 0..30 {
        c.case(format!("tree/{k}"), "tree", |rng| {
            let root: Vec<u8> = (0..rng.gen_range(0..4)).map(|_| rng.gen()).collect();
            let mut all = HashSet::new();
            let mut level = vec![root.clone()];
            all.insert(root);
            let mut count = 1usize;
            for _ in 0..3 {
                let mut next = vec![];
                for p in &level {
                    let num = [1u64, 2, 3, 5, 255, 256, 300][rng.gen_range(0..if level.len() > 40 { 4 } else { 7 })];
                    for id in ProtocolIDBuilder::new(p, num).take(num as usize) {
                        count += 1;
                        ens!(all.insert(id.clone()), "identifier {id:?} assigned to two different subprotocols");
                        if next.len() < 120 {
                            next.push(id);
                        }
                    }
                }
                level = next;
            }
            ens!(all.len() == count, "collision");
            Ok(())
        });
    }
}

/// A network handle whose receive requests are answered from a scripted list.
fn scripted(script: Vec<ReceivedMessage>) -> (Network, tokio::sync::mpsc::UnboundedReceiver<SendMessage>, std::sync::Arc<std::sync::Mutex<Vec<ReceivedMessage>>>) {
    let (tx_s, rx_s) = unbounded_channel();
    let (tx_r, mut rx_r) = unbounded_channel::<(Vec<u8>, tokio::sync::oneshot::Sender<ReceivedMessage>)>();
    let left = std::sync::Arc::new(std::sync::Mutex::new(script));
    let l2 = left.clone();
    spawn(async move {
        while let Some((id, h)) = rx_r.recv().await {
            let m = {
                let mut l = l2.lock().unwrap();
                l.iter().position(|m| m.proto_id == id).map(|i| l.remove(i))
            };
            match m {
                Some(m) => {
                    tokio::task::yield_now().await;
                    let _ = h.send(m);
                }
                None => std::mem::forget(h),
            }
        }
    });
    (ProtoHandle::new(tx_s, tx_r), rx_s, left)
}

fn gather_one(n: usize, order: &[usize], tag: &str) -> Result<(), String> {
    let id = b"gather".to_vec();
    let script: Vec<ReceivedMessage> = order
        .iter()
        .enumerate()
        .map(|(k, &p)| ReceivedMessage { proto_id: if p == usize::MAX { b"other".to_vec() } else { id.clone() }, from: (p % n.max(1)) as u16, data: if k % 5 == 4 { vec![] } else { vec![p as u8, k as u8] } })
        .collect();
    let mut exp: Vec<Option<Vec<u8>>> = vec![None; n];
    let mut consumed = 0;
    let mut missing = n;
    for m in script.iter().filter(|m| m.proto_id == id) {
        if missing == 0 {
            break;
        }
        consumed += 1;
        if exp[m.from as usize].is_none() {
            exp[m.from as usize] = Some(m.data.clone());
            missing -= 1;
        }
    }
    if missing > 0 {
        return Ok(());
    }
    let exp: Vec<Vec<u8>> = exp.into_iter().map(|x| x.unwrap()).collect();
    let total = script.len();
    let o = order.to_vec();
    run_async(10, async move {
        let (net, _rx, left) = scripted(script);
        let got = network::message_from_each_party(id.clone(), &net, n).await;
        ens!(got == exp, "{tag}: arrival order {o:?} of parties gives {got:?}, expected the first message of each party in party order: {exp:?}");
        ens!(left.lock().unwrap().len() == total - consumed, "{tag}: arrival order {o:?}: {} messages consumed, expected {consumed}", total - left.lock().unwrap().len());
        Ok(())
    })
}

pub fn gather(c: &mut Ctx) {
    // All arrival orders up to length 6 for up to 3 parties.
    for n in 1..=3usize {
        for len in n..=(if c.thorough { 7 } else { 6 }) {
            c.case(format!("all/n{n}len{len}"), &format!("n{n}"), |_| {
                for code in 0..n.pow(len as u32) {
                    let mut x = code;
                    let order: Vec<usize> = (0..len).map(|_| { let p = x % n; x /= n; p }).collect();
                    gather_one(n, &order, "exhaustive")?;
                }
                Ok(())
            });
        }
    }
    for k in 0..40 {
        c.case(format!("random/{k}"), "random", |rng| {
            let n = rng.gen_range(1..20usize);
            let len = rng.gen_range(n..4 * n + 2);
            let mut order: Vec<usize> = (0..len).map(|_| if rng.gen_bool(0.1) { usize::MAX } else { rng.gen_range(0..n) }).collect();
            order.extend(0..n);
            gather_one(n, &order, "random")
        });
    }
    c.case("zero".into(), "empty", |_| gather_one(0, &[], "no parties"));
    // Barrier: nobody passes before everybody has arrived.
    for k in 0..6 {
        c.case(format!("barrier/{k}"), "barrier", |rng| {
            let n = rng.gen_range(2..7usize);
            let last = rng.gen_range(0..n);
            run_async(20, async move {
                let nets = network::setup_local_network(n as u16).await;
                let passed = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
                let mut hs = vec![];
                let mut held = None;
                for (i, (_, net)) in nets.into_iter().enumerate() {
                    if i == last {
                        held = Some(net);
                        continue;
                    }
                    let passed = passed.clone();
                    hs.push(spawn(async move {
                        network::sync(b"bar".to_vec(), &net, n).await;
                        passed.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        net
                    }));
                }
                for _ in 0..400 {
                    tokio::task::yield_now().await;
                }
                ens!(passed.load(std::sync::atomic::Ordering::SeqCst) == 0, "party passed the barrier before party {last} arrived");
                let net = held.unwrap();
                network::sync(b"bar".to_vec(), &net, n).await;
                for h in hs {
                    h.await.map_err(|e| e.to_string())?;
                }
                ens!(passed.load(std::sync::atomic::Ordering::SeqCst) == n - 1, "barrier");
                Ok(())
            })
        });
    }
}

#[derive(Clone)]
struct Sent {
    to: usize,
    from: usize,
    id: Vec<u8>,
    data: Vec<u8>,
}

/// Random history of sends and receives over a network; checks exactly-once, in-order, per-context
/// delivery at every receiver.
async fn history(nets: Vec<(network::Stats, Network)>, plan: Vec<Sent>, early: Vec<bool>, gaps: Vec<u8>) -> Result<Vec<(network::Stats, Network)>, String> {
    let n = nets.len();
    let mut want: HashMap<(usize, Vec<u8>), Vec<(usize, Vec<u8>)>> = HashMap::new();
    for m in &plan {
        want.entry((m.to, m.id.clone())).or_default().push((m.from, m.data.clone()));
    }
    let mut tasks = vec![];
    let mut late = vec![];
    let mut keys: Vec<_> = want.iter().map(|(k, v)| (k.clone(), v.len())).collect();
    keys.sort();
    for (i, ((to, id), cnt)) in keys.into_iter().enumerate() {
        let net = nets[to].1.clone();
        let fut = async move {
            let mut got = vec![];
            for _ in 0..cnt {
                let m = net.recv(id.clone()).await;
                got.push(m);
            }
            ((to, id), got)
        };
        if early[i % early.len()] {
            tasks.push(spawn(fut));
        } else {
            late.push(fut);
        }
    }
    for (k, m) in plan.iter().enumerate() {
        nets[m.from].1.send(SendMessage { proto_id: m.id.clone(), to: Recipient::One(m.to as u16), data: m.data.clone() });
        for _ in 0..gaps[k % gaps.len()] {
            tokio::task::yield_now().await;
        }
        if !late.is_empty() && gaps[(k + 1) % gaps.len()] % 3 == 0 {
            tasks.push(spawn(late.pop().unwrap()));
        }
    }
    for f in late {
        tasks.push(spawn(f));
    }
    for t in tasks {
        let (key, got) = t.await.map_err(|e| e.to_string())?;
        let exp = &want[&key];
        for m in &got {
            ens!(m.proto_id == key.1, "a receive on {:?} returned a message of {:?}", key.1, m.proto_id);
        }
        for s in 0..n {
            let e: Vec<&Vec<u8>> = exp.iter().filter(|x| x.0 == s).map(|x| &x.1).collect();
            let r: Vec<&Vec<u8>> = got.iter().filter(|x| x.from as usize == s).map(|x| &x.data).collect();
            ens!(e == r, "party {} context {:?}: messages from {s} arrived as {r:?}, sent {e:?}", key.0, key.1);
        }
    }
    Ok(nets)
}

fn plan<R: Rng>(rng: &mut R, n: usize, len: usize, ids: usize) -> (Vec<Sent>, Vec<bool>, Vec<u8>) {
    let idl: Vec<Vec<u8>> = (0..ids).map(|i| vec![1u8; i % 4].into_iter().chain([i as u8]).collect()).collect();
    let p = (0..len)
        .map(|k| Sent { to: rng.gen_range(0..n), from: rng.gen_range(0..n), id: idl[rng.gen_range(0..ids)].clone(), data: (0..rng.gen_range(0..5)).map(|_| k as u8).chain([(k >> 8) as u8, k as u8]).collect() })
        .collect();
    let early = (0..17).map(|_| rng.gen()).collect();
    let gaps = (0..13).map(|_| if rng.gen_bool(0.4) { 0 } else { rng.gen_range(0..6) }).collect();
    (p, early, gaps)
}

pub fn delivery(c: &mut Ctx) {
    let reps = if c.thorough { 600 } else { 150 };
    for k in 0..reps {
        c.case(format!("local/{k}"), &format!("ids{}", [1, 2, 5, 9][k % 4]), |rng| {
            let n = rng.gen_range(1..6usize);
            let len = rng.gen_range(1..60);
            let (p, e, g) = plan(rng, n, len, [1, 2, 5, 9][k % 4]);
            run_async(15, async move {
                let nets = network::setup_local_network(n as u16).await;
                history(nets, p, e, g).await.map(|_| ())
            })
        });
    }
    // The same on a multi-threaded scheduler.
    for k in 0..(reps / 5) {
        c.case(format!("threads/{k}"), "multi-thread", |rng| {
            let n = rng.gen_range(1..5usize);
            let (p, e, g) = plan(rng, n, 60, 4);
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
            let r = rt.block_on(async move {
                let work = spawn(async move {
                    let nets = network::setup_local_network(n as u16).await;
                    history(nets, p, e, g).await.map(|_| ())
                });
                match tokio::time::timeout(std::time::Duration::from_secs(15), work).await {
                    Ok(r) => r.map_err(|e| format!("panic: {e}"))?,
                    Err(_) => Err("does not terminate: a receive never completes".into()),
                }
            });
            rt.shutdown_background();
            r
        });
    }
    // Directed: messages waiting before the first receive, receives waiting before the first message.
    c.case("backlog".into(), "backlog", |_| {
        run_async(15, async {
            let nets = network::setup_local_network(2).await;
            for k in 0..50u8 {
                nets[0].1.send(SendMessage { proto_id: vec![k % 3], to: Recipient::One(1), data: vec![k] });
            }
            for _ in 0..300 {
                tokio::task::yield_now().await;
            }
            for k in 0..50u8 {
                let id = vec![(k * 2) % 3];
                let m = nets[1].1.recv(id.clone()).await;
                let nth = (0..k).filter(|j| (j * 2) % 3 == id[0]).count() as u8;
                ens!(m.data == vec![id[0] + 3 * nth] && m.from == 0 && m.proto_id == id, "receive {k} on {id:?} returned {m:?}");
                if nth == 15 { break; }
            }
            Ok(())
        })
    });
}

fn free_ports(n: usize) -> Vec<String> {
    let ls: Vec<_> = (0..n).map(|_| std::net::TcpListener::bind("127.0.0.1:0").unwrap()).collect();
    ls.iter().map(|l| format!("127.0.0.1:{}", l.local_addr().unwrap().port())).collect()
}

async fn tcp(n: usize) -> Result<Vec<(network::Stats, Network)>, String> {
    let addrs = free_ports(n);
    let hs: Vec<_> = (0..n).map(|i| { let a = addrs.clone(); spawn(async move { network::setup_tcp_network(i as u16, &a).await }) }).collect();
    let mut nets = vec![];
    for h in hs {
        match tokio::time::timeout(std::time::Duration::from_secs(20), h).await {
            Ok(Ok(x)) => nets.push(x),
            // Ports can be taken by someone else in between: this says nothing about routing.
            _ => return Err(format!("{UNDECIDED}could not set up loopback connections")),
        }
    }
    Ok(nets)
}

async fn broadcast_and_unicast(nets: Vec<(network::Stats, Network)>, msgs: Vec<(usize, Option<usize>, Vec<u8>, Vec<u8>)>) -> Result<(), String> {
    let n = nets.len();
    let mut want: HashMap<(usize, Vec<u8>), Vec<(usize, Vec<u8>)>> = HashMap::new();
    for (from, to, id, data) in &msgs {
        let tos: Vec<usize> = match to { Some(t) => vec![*t], None => (0..n).collect() };
        for t in tos {
            want.entry((t, id.clone())).or_default().push((*from, data.clone()));
        }
        nets[*from].1.send(SendMessage { proto_id: id.clone(), to: match to { Some(t) => Recipient::One(*t as u16), None => Recipient::All }, data: data.clone() });
    }
    for ((t, id), mut exp) in want {
        let mut got = vec![];
        for _ in 0..exp.len() {
            let m = nets[t].1.recv(id.clone()).await;
            ens!(m.proto_id == id, "delivered with identifier {:?} instead of {id:?}", m.proto_id);
            got.push((m.from as usize, m.data));
        }
        exp.sort();
        got.sort();
        let short = |v: &[(usize, Vec<u8>)]| v.iter().map(|(f, d)| (*f, d.len(), d.iter().take(6).cloned().collect::<Vec<u8>>())).collect::<Vec<_>>();
        ens!(exp == got, "party {t}, identifier of {} bytes: received {:?}, sent {:?} (sender, length, first bytes)", id.len(), short(&got), short(&exp));
        // Nothing further under this identifier.
        let extra = tokio::time::timeout(std::time::Duration::from_millis(15), nets[t].1.recv(id.clone())).await;
        ens!(extra.is_err(), "party {t} received an extra copy: {:?}", extra.map(|m| (m.from, m.data.len())));
    }
    Ok(())
}

fn msgs<R: Rng>(rng: &mut R, n: usize, k: usize, lens: &[usize]) -> Vec<(usize, Option<usize>, Vec<u8>, Vec<u8>)> {
    (0..k)
        .map(|i| {
            let id: Vec<u8> = (0..[0usize, 1, 2, 16, 127, 128, 254, 255][i % 8]).map(|_| rng.gen()).collect();
            let data: Vec<u8> = (0..lens[i % lens.len()]).map(|_| rng.gen()).collect();
            (rng.gen_range(0..n), if rng.gen_bool(0.35) { None } else { Some(rng.gen_range(0..n)) }, id, data)
        })
        .collect()
}

pub fn routing(c: &mut Ctx) {
    let reps = if c.thorough { 40 } else { 12 };
    for k in 0..reps {
        c.case(format!("local/{k}"), "local", |rng| {
            let n = rng.gen_range(1..7usize);
            let m = msgs(rng, n, 24, &[0, 1, 5, 100]);
            run_async(30, async move { broadcast_and_unicast(network::setup_local_network(n as u16).await, m).await })
        });
    }
    for k in 0..(reps / 2) {
        c.case(format!("tcp/{k}"), "tcp", |rng| {
            let n = [2usize, 3, 4, 1, 5][k % 5];
            // Lengths around every change of the length prefix, and beyond one segment.
            let lens: &[usize] = if k % 2 == 0 { &[0, 1, 120, 125, 126, 127, 128, 130, 16381, 16384] } else { &[16380, 16383, 70000, 3, (1 << 21) - 3, 1 << 21, 0] };
            let m = msgs(rng, n, 20, lens);
            run_async(40, async move { broadcast_and_unicast(tcp(n).await?, m).await })
        });
    }
    // Every message from every sender to every recipient kind.
    for n in 1..=4usize {
        for t in [false, true] {
            c.case(format!("pairs/n{n}/{}", if t { "tcp" } else { "local" }), "all-pairs", |_| {
                let mut m = vec![];
                for from in 0..n {
                    for to in (0..n).map(Some).chain([None]) {
                        m.push((from, to, vec![from as u8, to.map(|x| x as u8).unwrap_or(99)], vec![from as u8; 3]));
                    }
                }
                run_async(40, async move {
                    let nets = if t { tcp(n).await? } else { network::setup_local_network(n as u16).await };
                    broadcast_and_unicast(nets, m).await
                })
            });
        }
    }
    // A long stream of small messages over one connection stays in order and intact.
    c.case("tcp/stream".into(), "tcp-stream", |rng| {
        let mut p = vec![];
        for k in 0..400usize {
            let len = [1usize, 124, 125, 126, 127, 128, 300][rng.gen_range(0..7)];
            p.push(Sent { from: 0, to: 1, id: vec![(k % 3) as u8], data: vec![k as u8; len] });
        }
        run_async(40, async move { history(tcp(2).await?, p, vec![true, false], vec![0, 1, 0, 2]).await.map(|_| ()) })
    });
}

pub fn stats(c: &mut Ctx) {
    for k in 0..24 {
        let is_tcp = k % 6 == 5;
        c.case(format!("{}/{k}", if is_tcp { "tcp" } else { "local" }), if is_tcp { "tcp" } else { "local" }, |rng| {
            let n = rng.gen_range(1..6usize).min(if is_tcp { 3 } else { 6 });
            let (p, e, gps) = plan(rng, n, 40, 4);
            run_async(40, async move {
                let nets = if is_tcp { tcp(n).await? } else { network::setup_local_network(n as u16).await };
                let half = p.len() / 2;
                let mut exp = vec![vec![(0u64, 0u64); n]; n];
                let nets = history(nets, p[..half].to_vec(), e.clone(), gps.clone()).await?;
                let add = |m: &Sent, exp: &mut Vec<Vec<(u64, u64)>>| {
                    exp[m.to][m.from].0 += m.data.len() as u64;
                    exp[m.to][m.from].1 += (m.data.len() + m.id.len()) as u64;
                };
                for m in &p[..half] {
                    add(m, &mut exp);
                }
                let mut snaps = vec![];
                for (t, (st, _)) in nets.iter().enumerate() {
                    for s in 0..n {
                        let got = st.party(s as u16).await;
                        ens!(got == exp[t][s], "party {t} has received everything but counts {got:?} from {s}, expected {:?}", exp[t][s]);
                    }
                    let tot = exp[t].iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
                    let got = st.total().await;
                    ens!(got == tot, "party {t} total {got:?}, expected {tot:?}");
                    snaps.push(scalable_mpc::Stats::now(st, n as u32).await);
                }
                let before = exp.clone();
                let nets = history(nets, p[half..].to_vec(), e, gps).await?;
                for m in &p[half..] {
                    add(m, &mut exp);
                }
                for (t, (st, _)) in nets.iter().enumerate() {
                    let (_, d) = snaps[t].elapsed(st).await;
                    let want: Vec<(u64, u64)> = (0..n).map(|s| (exp[t][s].0 - before[t][s].0, exp[t][s].1 - before[t][s].1)).collect();
                    ens!(d == want, "party {t} since the snapshot: {d:?}, expected {want:?}");
                    let clone = st.clone();
                    for s in 0..n {
                        ens!(clone.party(s as u16).await == exp[t][s], "party {t} counts for {s} after second phase");
                    }
                }
                Ok(())
            })
        });
    }
    // A message is already counted when it is delivered, and is counted even if nobody asks for it.
    c.case("before-delivery".into(), "ordering", |_| {
        run_async(15, async {
            let nets = network::setup_local_network(2).await;
            for (k, len) in [(0u64, 3usize), (1, 0), (2, 10)] {
                let prev = nets[1].0.party(0).await;
                let net = nets[1].1.clone();
                let st = nets[1].0.clone();
                let h = spawn(async move {
                    let m = net.recv(vec![1, 2]).await;
                    (m.data.len() as u64, st.party(0).await)
                });
                for _ in 0..5 * k {
                    tokio::task::yield_now().await;
                }
                nets[0].1.send(SendMessage { proto_id: vec![1, 2], to: Recipient::One(1), data: vec![0; len] });
                let (l, now) = h.await.map_err(|e| e.to_string())?;
                ens!(now == (prev.0 + l, prev.1 + l + 2), "message of {l} bytes delivered but counters went {prev:?} -> {now:?}");
            }
            nets[0].1.send(SendMessage { proto_id: vec![9], to: Recipient::All, data: vec![0; 7] });
            nets[0].1.send(SendMessage { proto_id: vec![8], to: Recipient::One(1), data: vec![0; 1] });
            let _ = nets[1].1.recv(vec![8]).await;
            let s1 = nets[1].0.party(0).await;
            ens!(s1 == (13 + 8, 13 + 6 + 8 + 2), "unclaimed message not counted: {s1:?}");
            for _ in 0..200 {
                tokio::task::yield_now().await;
            }
            let (s0, s1) = (nets[0].0.party(0).await, nets[0].0.party(1).await);
            ens!(s0 == (7, 8), "own broadcast copy counted as {s0:?}");
            ens!(s1 == (0, 0), "traffic counted for a silent party");
            Ok(())
        })
    });
}

// Ports below the range the system hands out by itself, free at the moment.
pub fn quiet_ports(rng: &mut impl Rng, n: usize) -> Vec<String> {
    let mut ls: Vec<(u16, std::net::TcpListener)> = vec![];
    while ls.len() < n {
        let p = rng.gen_range(11000..32000u16);
        if let Ok(l) = std::net::TcpListener::bind(("0.0.0.0", p)) {
            ls.push((p, l));
        }
    }
    ls.iter().map(|(p, _)| format!("127.0.0.1:{p}")).collect()
}

// Connections to `at` are passed on to `to` as soon as that listens, the first bytes one at a time.
async fn slow_link(at: String, to: String, used: std::sync::Arc<std::sync::atomic::AtomicUsize>) {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    use tokio::net::{TcpListener, TcpStream};
    let Ok(l) = TcpListener::bind(&at).await else { return };
    while let Ok((a, _)) = l.accept().await {
        let (to, used) = (to.clone(), used.clone());
        spawn(async move {
            let b = loop {
                match TcpStream::connect(&to).await {
                    Ok(b) => break b,
                    Err(_) => tokio::time::sleep(std::time::Duration::from_millis(40)).await,
                }
            };
            used.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let _ = b.set_nodelay(true);
            let ((mut ar, mut aw), (mut br, mut bw)) = (a.into_split(), b.into_split());
            spawn(async move { let _ = tokio::io::copy(&mut br, &mut aw).await; });
            for _ in 0..6 {
                let Ok(x) = ar.read_u8().await else { return };
                tokio::time::sleep(std::time::Duration::from_millis(25)).await;
                if bw.write_u8(x).await.is_err() || bw.flush().await.is_err() { return; }
            }
            let _ = tokio::io::copy(&mut ar, &mut bw).await;
        });
    }
}

// Starts the parties in the given order, each so many milliseconds after the one before.
async fn bring_up(addrs: Vec<Vec<String>>, order: Vec<usize>, gaps: Vec<u64>, direct: bool) -> Result<(), String> {
    let n = order.len();
    let mut tasks: Vec<Option<tokio::task::JoinHandle<(network::Stats, Network)>>> = (0..n).map(|_| None).collect();
    for (k, (&i, gap)) in order.iter().zip(&gaps).enumerate() {
        tokio::time::sleep(std::time::Duration::from_millis(*gap)).await;
        // (a link accepts in place of a party that is not there yet)
        if direct && k == n - 1 {
            for j in &order[..k] {
                ens!(!tasks[*j].as_ref().unwrap().is_finished(), "party {j} of {n} returned before party {i} was started (order {order:?}, pauses {gaps:?} ms)");
            }
        }
        let a = addrs[i].clone();
        tasks[i] = Some(spawn(async move { network::setup_tcp_network(i as u16, &a).await }));
    }
    let mut nets = vec![];
    for (i, t) in tasks.into_iter().enumerate() {
        match tokio::time::timeout(std::time::Duration::from_secs(25), t.unwrap()).await {
            Ok(Ok(x)) => nets.push(x.1),
            Ok(Err(e)) => return Err(format!("party {i} of {n} failed to connect: {e} (order {order:?}, pauses {gaps:?} ms)")),
            Err(_) => return Err(format!("party {i} of {n} has no complete network 25 s after the last start (order {order:?}, pauses {gaps:?} ms)")),
        }
    }
    for i in 0..n {
        for j in 0..n {
            nets[i].send(SendMessage { proto_id: vec![3], to: Recipient::One(j as u16), data: vec![i as u8, j as u8] });
        }
    }
    for j in 0..n {
        let mut seen = vec![false; n];
        for _ in 0..n {
            let Ok(m) = tokio::time::timeout(std::time::Duration::from_secs(10), nets[j].recv(vec![3])).await else {
                return Err(format!("party {j} of {n} hears only from {seen:?} (order {order:?}, pauses {gaps:?} ms)"));
            };
            ens!(m.data == vec![m.from as u8, j as u8], "a message of party {} to party {} reached party {j} as one of party {} (order {order:?}, pauses {gaps:?} ms)", m.data[0], m.data[1], m.from);
            ens!(!seen[m.from as usize], "a second message of party {} at party {j}", m.from);
            seen[m.from as usize] = true;
        }
    }
    Ok(())
}

// A port that somebody else took in between says nothing.
fn unless_taken(r: Result<(), String>) -> Result<(), String> {
    r.map_err(|e| if e.contains("AddrInUse") || e.contains("already in use") { format!("{UNDECIDED}{e}") } else { e })
}

pub fn connecting(c: &mut Ctx) {
    use rand::seq::SliceRandom;
    use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
    // One party several seconds after the others.
    c.case("late".into(), "long-delays", |rng| {
        let mut runs = vec![];
        for late in 0..3usize {
            let mut order: Vec<usize> = (0..3).filter(|x| *x != late).collect();
            order.push(late);
            runs.push(bring_up(vec![quiet_ports(rng, 3); 3], order, vec![0, 100, 7300], true));
        }
        unless_taken(run_async(60, async move {
            let hs: Vec<_> = runs.into_iter().map(spawn).collect();
            for h in hs {
                h.await.map_err(|e| e.to_string())??;
            }
            Ok(())
        }))
    });
    // Links on which the first bytes arrive one at a time; every pair of parties is joined by one connection.
    for k in 0..3 {
        c.case(format!("pieces/{k}"), "slow-links", |rng| {
            let n = [3usize, 4, 2][k % 3];
            let own = quiet_ports(rng, n);
            let mut order: Vec<usize> = (0..n).collect();
            order.shuffle(rng);
            let gaps: Vec<u64> = (0..n).map(|i| if i == n - 1 { 250 } else { rng.gen_range(0..80) }).collect();
            let ports = quiet_ports(rng, n * n);
            let used: Vec<Arc<AtomicUsize>> = (0..n * n).map(|_| Default::default()).collect();
            unless_taken(run_async(60, async move {
                let mut lists = vec![own.clone(); n];
                for i in 0..n {
                    for j in 0..n {
                        if i != j {
                            lists[i][j] = ports[i * n + j].clone();
                            spawn(slow_link(ports[i * n + j].clone(), own[j].clone(), used[i * n + j].clone()));
                        }
                    }
                }
                bring_up(lists, order, gaps, false).await?;
                for i in 0..n {
                    for j in 0..i {
                        let m = used[i * n + j].load(Ordering::SeqCst) + used[j * n + i].load(Ordering::SeqCst);
                        ens!(m == 1, "{m} connections between party {i} and party {j}");
                    }
                }
                Ok(())
            }))
        });
    }
    for k in 0..6 {
        c.case(format!("order/{k}"), "start-orders", |rng| {
            // Three networks at once.
            let mut runs = vec![];
            for m in 0..3usize {
                let n = [2, 3, 4, 5][(k + m) % 4];
                let mut order: Vec<usize> = (0..n).collect();
                match k {
                    0 => order.reverse(),
                    1 => order.rotate_left(1),
                    _ => order.shuffle(rng),
                }
                let mut gaps: Vec<u64> = (0..n).map(|_| [0, 30, 130][rng.gen_range(0..3)]).collect();
                gaps[n - 1] = 250;
                let a = quiet_ports(rng, n);
                runs.push(bring_up(vec![a; n], order, gaps, true));
            }
            unless_taken(run_async(60, async move {
                let hs: Vec<_> = runs.into_iter().map(spawn).collect();
                for h in hs {
                    h.await.map_err(|e| e.to_string())??;
                }
                Ok(())
            }))
        });
    }
}
