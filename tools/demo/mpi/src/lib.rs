//! A tiny in-process stand-in for the part of MPI that funspace uses: every
//! rank is a thread. A collective completes when all ranks have called it; it
//! panics if they do not agree on what they call.
use std::any::TypeId;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub type Count = i32;
pub type Rank = i32;
pub type Tag = i32;

#[derive(Default)]
struct Slot {
    what: String,
    posted: Vec<Option<Vec<Vec<u8>>>>,
    count: usize,
    left: usize,
}
#[derive(Default)]
struct Inner {
    slots: std::collections::HashMap<u64, Slot>,
    /// source, destination, tag, content
    mail: Vec<(usize, usize, Tag, Vec<u8>)>,
    dead: Option<String>,
}
pub struct World {
    size: usize,
    m: Mutex<Inner>,
    c: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
    static SEQ: RefCell<u64> = const { RefCell::new(0) };
    static CALLS: RefCell<u64> = const { RefCell::new(0) };
}
/// run f on n ranks; a panic on any of them is returned
pub fn run<F: Fn(usize) + Send + Sync + 'static>(n: usize, f: F) -> Result<(), String> {
    let w = Arc::new(World { size: n, m: Mutex::new(Inner::default()), c: Condvar::new() });
    let f = Arc::new(f);
    let hs: Vec<_> = (0..n)
        .map(|r| {
            let (w, f) = (w.clone(), f.clone());
            std::thread::spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((w.clone(), r)));
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r)));
                if let Err(e) = x {
                    let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let mut g = w.m.lock().unwrap_or_else(|e| e.into_inner());
                    g.dead.get_or_insert(format!("rank {}: {}", r, t));
                    w.c.notify_all();
                    return Err(format!("rank {}: {}", r, t));
                }
                Ok(())
            })
        })
        .collect();
    let mut r = Ok(());
    for h in hs {
        let x = h.join().unwrap();
        if r.is_ok() {
            r = x;
        }
    }
    r
}
/// collective calls this rank has made
pub fn calls() -> u64 {
    CALLS.with(|c| *c.borrow())
}
fn me() -> (Arc<World>, usize) {
    ME.with(|m| m.borrow().clone().expect("not a rank"))
}
/// every rank posts one byte vector per destination; returns what the others
/// posted for this rank
fn exchange(what: String, post: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let (w, r) = me();
    CALLS.with(|c| *c.borrow_mut() += 1);
    let seq = SEQ.with(|s| {
        *s.borrow_mut() += 1;
        *s.borrow()
    });
    let mut g = w.m.lock().unwrap_or_else(|e| e.into_inner());
    let n = w.size;
    let s = g.slots.entry(seq).or_insert_with(|| Slot { what: what.clone(), posted: vec![None; n], count: 0, left: n });
    if s.what != what {
        let m = format!("collective mismatch: {} against {}", what, s.what);
        g.dead.get_or_insert(m.clone());
        w.c.notify_all();
        drop(g);
        panic!("{}", m);
    }
    s.posted[r] = Some(post);
    s.count += 1;
    w.c.notify_all();
    loop {
        if g.slots[&seq].count == n {
            break;
        }
        if let Some(d) = g.dead.clone() {
            drop(g);
            panic!("another rank failed: {}", d);
        }
        let (h, t) = w.c.wait_timeout(g, Duration::from_secs(10)).unwrap_or_else(|e| e.into_inner());
        g = h;
        if t.timed_out() && g.slots[&seq].count < n {
            g.dead.get_or_insert(format!("{} never completes", what));
            w.c.notify_all();
        }
    }
    let s = g.slots.get_mut(&seq).unwrap();
    let out = (0..n).map(|q| s.posted[q].as_ref().unwrap()[r].clone()).collect();
    s.left -= 1;
    if s.left == 0 {
        g.slots.remove(&seq);
    }
    out
}

pub mod traits {
    pub use super::collective::{CommunicatorCollectives, Root};
    pub use super::datatype::Equivalence;
    pub use super::point_to_point::{Destination, MatchedReceiveVec, Source};
    pub use super::topology::Communicator;
}
pub mod datatype {
    use super::Count;
    pub unsafe trait Equivalence: 'static {}
    macro_rules! eq { ($($t:ty)*) => {$(unsafe impl Equivalence for $t {})*} }
    eq!(f32 f64 i8 u8 i16 u16 i32 u32 i64 u64 num_complex::Complex<f32> num_complex::Complex<f64>);
    pub struct Partition<'a, B: ?Sized> {
        pub(crate) buf: &'a B,
        pub(crate) counts: Vec<Count>,
        pub(crate) displs: Vec<Count>,
    }
    impl<'a, T> Partition<'a, [T]> {
        pub fn new(buf: &'a [T], counts: &[Count], displs: &[Count]) -> Self {
            for (c, d) in counts.iter().zip(displs) {
                assert!(*c >= 0 && *d >= 0 && (c + d) as usize <= buf.len(), "partition out of bounds");
            }
            Partition { buf, counts: counts.to_vec(), displs: displs.to_vec() }
        }
    }
    pub struct PartitionMut<'a, B: ?Sized> {
        pub(crate) buf: &'a mut B,
        pub(crate) counts: Vec<Count>,
        pub(crate) displs: Vec<Count>,
    }
    impl<'a, T> PartitionMut<'a, [T]> {
        pub fn new(buf: &'a mut [T], counts: &[Count], displs: &[Count]) -> Self {
            for (c, d) in counts.iter().zip(displs) {
                assert!(*c >= 0 && *d >= 0 && (c + d) as usize <= buf.len(), "partition out of bounds");
            }
            PartitionMut { buf, counts: counts.to_vec(), displs: displs.to_vec() }
        }
    }
}
pub mod environment {
    #[derive(Debug)]
    pub struct Universe(pub(crate) ());
    impl Universe {
        pub fn world(&self) -> super::topology::SystemCommunicator {
            super::topology::SystemCommunicator
        }
    }
}
pub fn initialize() -> Option<environment::Universe> {
    Some(environment::Universe(()))
}
pub mod raw {
    pub trait AsRaw {}
}
pub mod topology {
    use super::Rank;
    #[derive(Debug, Clone, Copy)]
    pub struct SystemCommunicator;
    #[derive(Debug, Clone, Copy)]
    pub struct Process(pub(crate) Rank);
    #[derive(Debug, Clone, Copy)]
    pub struct AnyProcess;
    pub trait Communicator {
        fn size(&self) -> Rank;
        fn rank(&self) -> Rank;
        fn process_at_rank(&self, r: Rank) -> Process;
        fn any_process(&self) -> AnyProcess {
            AnyProcess
        }
    }
    impl Communicator for SystemCommunicator {
        fn size(&self) -> Rank {
            super::me().0.size as Rank
        }
        fn rank(&self) -> Rank {
            super::me().1 as Rank
        }
        fn process_at_rank(&self, r: Rank) -> Process {
            assert!(r >= 0 && r < self.size());
            Process(r)
        }
    }
}
pub mod collective {
    use super::datatype::{Equivalence, Partition, PartitionMut};
    use super::topology::{Process, SystemCommunicator};
    use super::{exchange, me, TypeId};
    fn id<T: 'static>() -> String {
        format!("{:?}", TypeId::of::<T>())
    }
    pub(crate) fn b<T>(s: &[T]) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)).to_vec() }
    }
    pub(crate) fn put<T>(d: &mut [T], s: &[u8]) {
        assert_eq!(std::mem::size_of_val(d), s.len(), "message length");
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), d.as_mut_ptr() as *mut u8, s.len()) }
    }
    /// one value or a slice of values
    pub trait Buf {
        type T: 'static;
        fn s(&self) -> &[Self::T];
    }
    pub trait BufMut: Buf {
        fn m(&mut self) -> &mut [Self::T];
    }
    impl<T: Equivalence> Buf for [T] {
        type T = T;
        fn s(&self) -> &[T] {
            self
        }
    }
    impl<T: Equivalence> BufMut for [T] {
        fn m(&mut self) -> &mut [T] {
            self
        }
    }
    impl<T: Equivalence> Buf for T {
        type T = T;
        fn s(&self) -> &[T] {
            std::slice::from_ref(self)
        }
    }
    impl<T: Equivalence> BufMut for T {
        fn m(&mut self) -> &mut [T] {
            std::slice::from_mut(self)
        }
    }
    fn part<'a, T>(p: &'a [T], c: &[i32], d: &[i32], i: usize) -> &'a [T] {
        &p[d[i] as usize..(d[i] + c[i]) as usize]
    }
    fn fill<T>(p: &mut PartitionMut<'_, [T]>, got: &[Vec<u8>]) {
        for (i, g) in got.iter().enumerate() {
            let (c, d) = (p.counts[i] as usize, p.displs[i] as usize);
            put(&mut p.buf[d..d + c], g);
        }
    }
    pub trait CommunicatorCollectives {
        fn all_to_all_varcount_into<T: Equivalence>(&self, s: &Partition<'_, [T]>, r: &mut PartitionMut<'_, [T]>) {
            let n = me().0.size;
            let got = exchange(format!("alltoallv {}", id::<T>()), (0..n).map(|i| b(part(s.buf, &s.counts, &s.displs, i))).collect());
            fill(r, &got);
        }
        fn all_gather_varcount_into<T: Equivalence>(&self, s: &[T], r: &mut PartitionMut<'_, [T]>) {
            let n = me().0.size;
            let got = exchange(format!("allgatherv {}", id::<T>()), vec![b(s); n]);
            fill(r, &got);
        }
        fn all_gather_into<S: Buf + ?Sized, R: BufMut<T = S::T> + ?Sized>(&self, s: &S, r: &mut R) {
            let n = me().0.size;
            let got = exchange(format!("allgather {}", id::<S::T>()), vec![b(s.s()); n]);
            put(r.m(), &got.concat());
        }
        fn barrier(&self) {
            let n = me().0.size;
            exchange("barrier".into(), vec![vec![]; n]);
        }
    }
    impl CommunicatorCollectives for SystemCommunicator {}
    fn to_root(root: usize, x: Vec<u8>) -> Vec<Vec<u8>> {
        let mut v = vec![vec![]; me().0.size];
        v[root] = x;
        v
    }
    pub trait Root {
        fn root_rank(&self) -> i32;
        fn broadcast_into<B: BufMut + ?Sized>(&self, x: &mut B) {
            let r = self.root_rank() as usize;
            let n = me().0.size;
            let got = exchange(format!("bcast {} {}", r, id::<B::T>()), vec![b(x.s()); n]);
            put(x.m(), &got[r]);
        }
        fn gather_into<S: Buf + ?Sized>(&self, s: &S) {
            let r = self.root_rank() as usize;
            assert_ne!(me().1, r, "root calls the non-root form");
            exchange(format!("gather {} {}", r, id::<S::T>()), to_root(r, b(s.s())));
        }
        fn gather_into_root<S: Buf + ?Sized, R: BufMut<T = S::T> + ?Sized>(&self, s: &S, x: &mut R) {
            let r = self.root_rank() as usize;
            assert_eq!(me().1, r, "non-root calls the root form");
            let got = exchange(format!("gather {} {}", r, id::<S::T>()), to_root(r, b(s.s())));
            put(x.m(), &got.concat());
        }
        fn gather_varcount_into<T: Equivalence>(&self, s: &[T]) {
            let r = self.root_rank() as usize;
            assert_ne!(me().1, r, "root calls the non-root form");
            exchange(format!("gatherv {} {}", r, id::<T>()), to_root(r, b(s)));
        }
        fn gather_varcount_into_root<T: Equivalence>(&self, s: &[T], x: &mut PartitionMut<'_, [T]>) {
            let r = self.root_rank() as usize;
            assert_eq!(me().1, r, "non-root calls the root form");
            let got = exchange(format!("gatherv {} {}", r, id::<T>()), to_root(r, b(s)));
            fill(x, &got);
        }
        fn scatter_varcount_into<T: Equivalence>(&self, x: &mut [T]) {
            let r = self.root_rank() as usize;
            assert_ne!(me().1, r, "root calls the non-root form");
            let n = me().0.size;
            let got = exchange(format!("scatterv {} {}", r, id::<T>()), vec![vec![]; n]);
            put(x, &got[r]);
        }
        fn scatter_varcount_into_root<T: Equivalence>(&self, s: &Partition<'_, [T]>, x: &mut [T]) {
            let r = self.root_rank() as usize;
            assert_eq!(me().1, r, "non-root calls the root form");
            let n = me().0.size;
            let got = exchange(format!("scatterv {} {}", r, id::<T>()), (0..n).map(|i| b(part(s.buf, &s.counts, &s.displs, i))).collect());
            put(x, &got[r]);
        }
        fn scatter_into<R: BufMut + ?Sized>(&self, x: &mut R) {
            let r = self.root_rank() as usize;
            assert_ne!(me().1, r, "root calls the non-root form");
            let n = me().0.size;
            let got = exchange(format!("scatter {} {}", r, id::<R::T>()), vec![vec![]; n]);
            put(x.m(), &got[r]);
        }
        fn scatter_into_root<S: Buf + ?Sized, R: BufMut<T = S::T> + ?Sized>(&self, s: &S, x: &mut R) {
            let r = self.root_rank() as usize;
            assert_eq!(me().1, r, "non-root calls the root form");
            let n = me().0.size;
            let k = s.s().len() / n;
            let got = exchange(format!("scatter {} {}", r, id::<S::T>()), (0..n).map(|i| b(&s.s()[i * k..(i + 1) * k])).collect());
            put(x.m(), &got[r]);
        }
    }
    impl Root for Process {
        fn root_rank(&self) -> i32 {
            self.0
        }
    }
}

/// messages between two ranks: buffered, in order
pub mod point_to_point {
    use super::collective::{b, put, Buf, BufMut};
    use super::datatype::Equivalence;
    use super::topology::{AnyProcess, Process};
    use super::{me, Duration, Rank, Tag};
    #[derive(Debug, Clone, Copy)]
    pub struct Status {
        src: Rank,
        tag: Tag,
    }
    impl Status {
        pub fn source_rank(&self) -> Rank {
            self.src
        }
        pub fn tag(&self) -> Tag {
            self.tag
        }
    }
    #[derive(Debug)]
    pub struct Message(Vec<u8>);
    impl Message {
        pub fn matched_receive_into<B: BufMut + ?Sized>(self, x: &mut B) -> Status {
            put(x.m(), &self.0);
            Status { src: -1, tag: 0 }
        }
    }
    fn post(dst: Rank, tag: Tag, x: Vec<u8>) {
        let (w, r) = me();
        super::CALLS.with(|c| *c.borrow_mut() += 1);
        // a large message is not buffered: it waits for the receiver
        let large = x.len() > 65536;
        let at = x.as_ptr() as usize;
        let mut g = w.m.lock().unwrap_or_else(|e| e.into_inner());
        g.mail.push((r, dst as usize, tag, x));
        w.c.notify_all();
        while large && g.mail.iter().any(|m| m.3.as_ptr() as usize == at) {
            if let Some(d) = g.dead.clone() {
                drop(g);
                panic!("another rank failed: {}", d);
            }
            let (h, t) = w.c.wait_timeout(g, Duration::from_secs(10)).unwrap_or_else(|e| e.into_inner());
            g = h;
            if t.timed_out() {
                g.dead.get_or_insert("a message is never received".into());
                w.c.notify_all();
            }
        }
    }
    fn fetch(src: Option<Rank>, tag: Option<Tag>, wait: bool) -> Option<(Vec<u8>, Status)> {
        let (w, r) = me();
        super::CALLS.with(|c| *c.borrow_mut() += 1);
        let mut g = w.m.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            let k = g.mail.iter().position(|m| m.1 == r && src.map_or(true, |s| s as usize == m.0) && tag.map_or(true, |t| t == m.2));
            if let Some(k) = k {
                let m = g.mail.remove(k);
                w.c.notify_all();
                return Some((m.3, Status { src: m.0 as Rank, tag: m.2 }));
            }
            if !wait {
                return None;
            }
            if let Some(d) = g.dead.clone() {
                drop(g);
                panic!("another rank failed: {}", d);
            }
            let (h, t) = w.c.wait_timeout(g, Duration::from_secs(10)).unwrap_or_else(|e| e.into_inner());
            g = h;
            if t.timed_out() {
                g.dead.get_or_insert("a message never arrives".into());
                w.c.notify_all();
            }
        }
    }
    fn list<T: Equivalence>(x: &[u8]) -> Vec<T> {
        let n = x.len() / std::mem::size_of::<T>();
        let mut v: Vec<T> = Vec::with_capacity(n);
        unsafe {
            std::ptr::copy_nonoverlapping(x.as_ptr(), v.as_mut_ptr() as *mut u8, n * std::mem::size_of::<T>());
            v.set_len(n);
        }
        v
    }
    pub trait Destination {
        fn dest(&self) -> Rank;
        fn send<B: Buf + ?Sized>(&self, x: &B) {
            post(self.dest(), 0, b(x.s()));
        }
        fn send_with_tag<B: Buf + ?Sized>(&self, x: &B, tag: Tag) {
            post(self.dest(), tag, b(x.s()));
        }
    }
    impl Destination for Process {
        fn dest(&self) -> Rank {
            self.0
        }
    }
    pub trait Source {
        fn source(&self) -> Option<Rank>;
        fn receive_vec<T: Equivalence>(&self) -> (Vec<T>, Status) {
            let (x, s) = fetch(self.source(), None, true).unwrap();
            (list(&x), s)
        }
        fn receive_vec_with_tag<T: Equivalence>(&self, tag: Tag) -> (Vec<T>, Status) {
            let (x, s) = fetch(self.source(), Some(tag), true).unwrap();
            (list(&x), s)
        }
        fn receive_into<B: BufMut + ?Sized>(&self, x: &mut B) -> Status {
            let (m, s) = fetch(self.source(), None, true).unwrap();
            put(x.m(), &m);
            s
        }
        fn immediate_matched_probe(&self) -> Option<(Message, Status)> {
            fetch(self.source(), None, false).map(|(m, s)| (Message(m), s))
        }
        fn immediate_matched_probe_with_tag(&self, tag: Tag) -> Option<(Message, Status)> {
            fetch(self.source(), Some(tag), false).map(|(m, s)| (Message(m), s))
        }
    }
    impl Source for Process {
        fn source(&self) -> Option<Rank> {
            Some(self.0)
        }
    }
    impl Source for AnyProcess {
        fn source(&self) -> Option<Rank> {
            None
        }
    }
    pub trait MatchedReceiveVec {
        fn matched_receive_vec<T: Equivalence>(self) -> (Vec<T>, Status);
    }
    impl MatchedReceiveVec for (Message, Status) {
        fn matched_receive_vec<T: Equivalence>(self) -> (Vec<T>, Status) {
            (list(&self.0 .0), self.1)
        }
    }
}
