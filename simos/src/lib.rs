//! SimOS: a simulated operating system, preloaded into an unmodified noodle binary.
//!
//! All threads of the process run one at a time; a seeded scheduler decides every switch. Time, futexes,
//! epoll, event descriptors, TCP, random numbers, thread creation, word-list reads, directory order and
//! standard output are simulated. Scripted clients live inside the simulation. What happened is
//! written to a history file (shared mapping, so that it survives a crash of the process).
//!
//! Without SIMOS_CONF in the environment the library passes everything through.
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]
mod api;
mod rng;
mod sys;

use rng::Rng;
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use sys::*;

pub const NEVER: u64 = u64::MAX;
pub const EIN: u32 = libc::EPOLLIN as u32;
pub const EOUT: u32 = libc::EPOLLOUT as u32;
pub const EERR: u32 = libc::EPOLLERR as u32;
pub const EHUP: u32 = libc::EPOLLHUP as u32;
pub const ERDHUP: u32 = libc::EPOLLRDHUP as u32;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Block {
    Run,
    Futex { addr: usize, mask: u32 },
    Epoll { obj: usize },
    Sleep,
    Join { tid: usize },
    Exited,
}

pub struct Thr {
    pub word: &'static AtomicU32,
    pub block: Block,
    pub until: u64,
    pub timed_out: bool,
    pub stalled_until: u64,
    pub pthread: libc::pthread_t,
}

#[derive(Clone, Copy, Default)]
pub struct Odds(pub u32, pub u32);

#[derive(Default)]
pub struct Conf {
    pub switch: Odds,
    pub stall: (Odds, u64),
    pub tick: (u64, u64),
    pub jump: (Odds, u64),
    pub rtstep: (Odds, u64),
    pub spurious: Odds,
    pub lat: (u64, u64),
    pub sndcap: usize,
    pub acceptfail: Odds,
    pub max_time: u64,
    pub max_steps: u64,
    pub prefix: Vec<u8>,
    pub rshort: Odds,
    pub reintr: Odds,
    pub eio: Option<(u64, Vec<u8>)>,
    pub eio_once: bool,
    pub openfail: Option<(i32, Vec<u8>)>,
    pub shuffle: bool,
    pub oshort: Odds,
    pub oeintr: Odds,
    pub ofail: Option<(u64, i32)>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Connect,
    Send(Vec<u8>, usize, u64),
    WaitLen(usize),
    WaitPat(Vec<u8>),
    WaitMsg(usize),
    WaitWsClose,
    WaitEof,
    Sleep(u64),
    Fin,
    Close,
    Rst,
    Vanish,
    Read(usize, u64),
    StopRead,
    Mark(String),
}

pub struct Client {
    pub phase: usize,
    pub delay: u64,
    pub ops: VecDeque<Op>,
    pub conn: Option<usize>,
    pub started: bool,
    pub done: bool,
    pub recv: Vec<u8>,
    pub mark: usize,
    pub ws_pos: usize,
    pub ws_msgs: usize,
    pub ws_mark: usize,
    pub ws_close: bool,
    pub eof: bool,
    pub sleeping: bool,
    pub chunk: usize,
    pub interval: u64,
    pub reading: bool,
}

#[derive(Default)]
pub struct Conn {
    pub client: usize,
    pub rbuf: VecDeque<u8>,
    pub fin: bool,
    pub err: i32,
    pub dead: bool,
    pub out: VecDeque<u8>,
    pub blocked_w: bool,
    pub srv_fin: bool,
    pub srv_closed: bool,
    pub srv_rst: bool,
    pub cli_closed: bool,
    pub vanished: bool,
    pub dead_timer: bool,
    pub pumping: bool,
    pub c2s_last: u64,
    pub refused: bool,
    pub told_eof: bool,
}

pub enum Obj {
    Epoll(Vec<Reg>),
    Event(u64),
    Listener { backlog: VecDeque<usize>, listening: bool },
    Conn(usize),
    Socket,
    Free,
}

pub struct Reg {
    pub fd: i32,
    pub obj: usize,
    pub events: u32,
    pub data: u64,
    pub pending: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    PhaseStart(usize),
    PhaseTimeout(usize),
    ClientStart(usize),
    ClientWake(usize),
    Arrive(usize),
    C2S(usize, Vec<u8>),
    FinArrive(usize),
    CloseArrive(usize),
    RstArrive(usize),
    Pump(usize),
    TcpDead(usize),
    Eof(usize, bool),
    Finish,
}

pub struct FileSt {
    pub name: Vec<u8>,
    pub pos: u64,
    pub intr: bool,
}

pub struct Sim {
    pub conf: Conf,
    pub rng: Rng,
    pub rnd: Rng, // what the program gets from getrandom
    pub now: u64,
    pub rt_offset: i64,
    pub steps: u64,
    pub full: bool,
    pub clock_reads: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub thr: Vec<Thr>,
    pub fds: Vec<Option<usize>>,
    pub files: Vec<Option<FileSt>>,
    pub objs: Vec<(Obj, u32)>,
    pub conns: Vec<Conn>,
    pub clients: Vec<Client>,
    pub events: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    pub seq: u64,
    pub phases: Vec<(u64, u64)>,
    pub phase: usize,
    pub phase_open: bool,
    pub stats: Vec<(&'static str, u64)>,
    pub hist: *mut u8,
    pub hist_len: usize,
    pub out_bytes: u64,
    pub out_intr: bool,
    pub eio_done: bool,
    pub server: bool,
    pub ended: bool,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();
pub const HIST_CAP: usize = 96 << 20;

thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
}

/// The simulation, if it is on and this is one of its threads.
#[inline]
pub fn sim() -> Option<&'static mut Sim> {
    unsafe {
        if SIM.is_null() || (*SIM).ended || TID.with(|t| t.get()) < 0 {
            None
        } else {
            Some(&mut *SIM)
        }
    }
}
pub fn me() -> usize {
    TID.with(|t| t.get()) as usize
}

impl Odds {
    pub fn hit(self, r: &mut Rng) -> bool {
        self.0 > 0 && self.1 > 0 && r.below(self.1 as usize) < self.0 as usize
    }
}

pub fn logrange(r: &mut Rng, a: u64, b: u64) -> u64 {
    if b <= a {
        a
    } else {
        a + r.loguniform(b - a)
    }
}

impl Sim {
    // ------------------------------------------------------------ history
    pub fn log(&mut self, s: &str) {
        self.log_raw(s.as_bytes());
    }
    fn log_raw(&mut self, b: &[u8]) {
        if self.hist.is_null() {
            return;
        }
        if self.hist_len + b.len() + 40 > HIST_CAP - (1 << 20) && !self.full {
            self.full = true;
            self.finish("output", 74);
        }
        if self.hist_len + b.len() + 40 > HIST_CAP {
            unsafe { exit_group(94) };
        }
        unsafe {
            let mut head = [0u8; 24];
            let mut i = 24;
            i -= 1;
            head[i] = b' ';
            let mut t = self.now;
            loop {
                i -= 1;
                head[i] = b'0' + (t % 10) as u8;
                t /= 10;
                if t == 0 {
                    break;
                }
            }
            let base = self.hist.add(8);
            std::ptr::copy_nonoverlapping(head[i..].as_ptr(), base.add(self.hist_len), 24 - i);
            self.hist_len += 24 - i;
            std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(self.hist_len), b.len());
            self.hist_len += b.len();
            *base.add(self.hist_len) = b'\n';
            self.hist_len += 1;
            let l = AtomicU64::from_ptr(self.hist as *mut u64);
            l.store(self.hist_len as u64, Ordering::SeqCst);
        }
    }
    pub fn log_hex(&mut self, kind: &str, b: &[u8]) {
        let mut s = String::with_capacity(kind.len() + 1 + b.len() * 2);
        s.push_str(kind);
        s.push(' ');
        for x in b {
            s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
            s.push(char::from_digit((x & 15) as u32, 16).unwrap());
        }
        self.log(&s);
    }
    pub fn count(&mut self, k: &'static str) {
        self.count_n(k, 1)
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        for e in self.stats.iter_mut() {
            if e.0 == k {
                e.1 += n;
                return;
            }
        }
        self.stats.push((k, n));
    }
    pub fn end(&mut self, why: &str) {
        if self.ended {
            return;
        }
        let st = std::mem::take(&mut self.stats);
        for (k, n) in &st {
            self.log(&format!("N {} {}", k, n));
        }
        match api::ALLOC_FAILED.load(Ordering::SeqCst) {
            0 => {}
            n => self.log(&format!("N fault.allocation_failed {}", n)),
        }
        self.log(&format!("N steps {}", self.steps));
        self.log(&format!("N clock_reads {}", self.clock_reads));
        self.log(&format!("N switches {}", self.switches));
        self.log(&format!("N threads {}", self.thr.len()));
        self.log(&format!("H {}", self.sched_hash));
        self.log(&format!("X {}", why));
        self.ended = true;
    }
    pub fn finish(&mut self, why: &str, code: i64) -> ! {
        self.end(why);
        unsafe { exit_group(code) }
    }

    // ------------------------------------------------------------ scheduler
    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.events.push(Reverse((t, self.seq, e)));
    }

    fn fire_due(&mut self) {
        loop {
            match self.events.peek() {
                Some(Reverse((t, _, _))) if *t <= self.now => {
                    let Reverse((_, _, e)) = self.events.pop().unwrap();
                    self.event(e);
                }
                _ => break,
            }
        }
        let now = self.now;
        for t in self.thr.iter_mut() {
            if t.until <= now && t.block != Block::Run && t.block != Block::Exited {
                t.block = Block::Run;
                t.until = NEVER;
                t.timed_out = true;
            }
        }
    }

    fn pick(&mut self) -> usize {
        loop {
            if self.now > self.conf.max_time {
                self.finish("time", 70);
            }
            self.fire_due();
            let now = self.now;
            let mut ready = [0usize; 256];
            let mut n = 0;
            let mut stalled = false;
            let mut next = NEVER;
            for (i, t) in self.thr.iter().enumerate() {
                if t.block == Block::Run {
                    if t.stalled_until > now {
                        stalled = true;
                        next = next.min(t.stalled_until);
                    } else if n < 256 {
                        ready[n] = i;
                        n += 1;
                    }
                } else if t.block != Block::Exited {
                    next = next.min(t.until);
                }
            }
            if n > 0 {
                let i = if n == 1 { 0 } else { self.rng.below(n) };
                return ready[i];
            }
            let _ = stalled;
            if let Some(Reverse((t, _, _))) = self.events.peek() {
                next = next.min(*t);
            }
            if next == NEVER {
                self.finish("deadlock", 71);
            }
            self.now = self.now.max(next);
        }
    }

    /// Give the processor to `to` and wait until it comes back.
    unsafe fn switch_to(&mut self, to: usize) {
        let my = me();
        if to == my {
            return;
        }
        self.switches += 1;
        self.sched_hash = rng::mix(self.sched_hash, to as u64);
        let w = self.thr[my].word;
        let o = self.thr[to].word;
        o.store(1, Ordering::SeqCst);
        futex_wake(o.as_ptr(), 1);
        wait_turn(w);
    }

    /// A point at which the scheduler may take the processor away.
    pub fn point(&mut self) {
        self.steps += 1;
        if self.steps > self.conf.max_steps {
            self.finish("steps", 72);
        }
        self.now += 20 + (self.rng.next() & 255);
        if self.now > self.conf.max_time {
            self.finish("time", 70);
        }
        self.fire_due();
        let (o, max) = self.conf.stall;
        if o.hit(&mut self.rng) {
            let d = logrange(&mut self.rng, 1, max);
            let my = me();
            self.thr[my].stalled_until = self.now + d;
            self.count("fault.thread_stall");
            self.count_n("stall_ns", d);
            let to = self.pick();
            unsafe { self.switch_to(to) };
            return;
        }
        if self.conf.switch.hit(&mut self.rng) {
            let to = self.pick();
            unsafe { self.switch_to(to) };
        }
    }

    pub fn resched(&mut self) {
        self.steps += 1;
        self.now += 100;
        let to = self.pick();
        unsafe { self.switch_to(to) };
    }

    /// Block the current thread; true: timed out.
    pub fn block(&mut self, b: Block, until: u64) -> bool {
        let my = me();
        {
            let t = &mut self.thr[my];
            t.block = b;
            t.until = until;
            t.timed_out = false;
        }
        self.steps += 1;
        self.now += 50;
        let to = self.pick();
        unsafe { self.switch_to(to) };
        let t = &mut self.thr[my];
        t.until = NEVER;
        t.timed_out
    }

    pub fn wake(&mut self, i: usize) {
        let t = &mut self.thr[i];
        t.block = Block::Run;
        t.until = NEVER;
        t.timed_out = false;
    }

    pub fn futex_wake(&mut self, addr: usize, n: usize, mask: u32) -> usize {
        let mut woken = 0;
        while woken < n {
            let mut c = [0usize; 256];
            let mut k = 0;
            for (i, t) in self.thr.iter().enumerate() {
                if let Block::Futex { addr: a, mask: m } = t.block {
                    if a == addr && m & mask != 0 && k < 256 {
                        c[k] = i;
                        k += 1;
                    }
                }
            }
            if k == 0 {
                break;
            }
            let i = c[self.rng.below(k)];
            self.wake(i);
            woken += 1;
        }
        woken
    }

    /// The clock as the program sees it; every look moves it.
    pub fn read_clock(&mut self, realtime: bool) -> u64 {
        let (a, b) = self.conf.tick;
        self.clock_reads += 1;
        self.now += logrange(&mut self.rng, a, b);
        let (o, max) = self.conf.jump;
        if o.hit(&mut self.rng) {
            let before = self.now;
            self.now += logrange(&mut self.rng, 1, max);
            self.count("fault.clock_jump");
            self.count_n("jump_ns", self.now - before);
        }
        if realtime {
            let (o, max) = self.conf.rtstep;
            if o.hit(&mut self.rng) {
                let d = logrange(&mut self.rng, 1, max) as i64;
                self.rt_offset += if self.rng.chance(1, 2) { d } else { -d };
                self.count("fault.realtime_step");
            }
            return (1_600_000_000_000_000_000i64 + self.now as i64 + self.rt_offset) as u64;
        }
        self.now
    }

    // ------------------------------------------------------------ descriptors
    pub fn new_fd(&mut self, obj: usize) -> i32 {
        let fd = unsafe { sc3(libc::SYS_open, b"/dev/null\0".as_ptr() as i64, (libc::O_RDWR | libc::O_CLOEXEC) as i64, 0) } as i32;
        if fd < 0 {
            return -1;
        }
        while self.fds.len() <= fd as usize {
            self.fds.push(None);
        }
        self.fds[fd as usize] = Some(obj);
        self.objs[obj].1 += 1;
        fd
    }
    pub fn new_obj(&mut self, o: Obj) -> usize {
        for i in 0..self.objs.len() {
            if matches!(self.objs[i].0, Obj::Free) {
                self.objs[i] = (o, 0);
                return i;
            }
        }
        self.objs.push((o, 0));
        self.objs.len() - 1
    }
    pub fn obj_of(&self, fd: i32) -> Option<usize> {
        if fd < 0 {
            return None;
        }
        self.fds.get(fd as usize).copied().flatten()
    }
    pub fn conn_of(&self, fd: i32) -> Option<usize> {
        match self.objs[self.obj_of(fd)?].0 {
            Obj::Conn(c) => Some(c),
            _ => None,
        }
    }
    pub fn close_fd(&mut self, fd: i32) {
        let o = self.fds[fd as usize].take().unwrap();
        self.objs[o].1 -= 1;
        for (ob, _) in self.objs.iter_mut() {
            if let Obj::Epoll(regs) = ob {
                regs.retain(|r| r.fd != fd);
            }
        }
        if self.objs[o].1 == 0 {
            if let Obj::Conn(c) = self.objs[o].0 {
                self.server_close(c);
            }
            self.objs[o].0 = Obj::Free;
        }
    }

    /// Current readiness of an object.
    fn ready(&self, obj: usize) -> u32 {
        match &self.objs[obj].0 {
            Obj::Event(n) => (if *n > 0 { EIN } else { 0 }) | EOUT,
            Obj::Listener { backlog, .. } => {
                if backlog.is_empty() {
                    0
                } else {
                    EIN
                }
            }
            Obj::Conn(c) => {
                let c = &self.conns[*c];
                let mut e = 0;
                if !c.rbuf.is_empty() || c.fin || c.dead {
                    e |= EIN;
                }
                if c.fin || c.dead {
                    e |= ERDHUP;
                }
                if c.dead {
                    e |= EERR | EHUP | EOUT;
                }
                if c.fin && c.srv_fin {
                    e |= EHUP;
                }
                if c.out.len() < self.conf.sndcap {
                    e |= EOUT;
                }
                e
            }
            _ => 0,
        }
    }

    /// Something happened to `obj`: edge for everyone who watches it.
    pub fn notify(&mut self, obj: usize, bits: u32) {
        let mut hit = [usize::MAX; 8];
        let mut k = 0;
        for (i, (o, _)) in self.objs.iter_mut().enumerate() {
            if let Obj::Epoll(regs) = o {
                for r in regs.iter_mut() {
                    if r.obj == obj && bits & (r.events | EERR | EHUP) != 0 {
                        r.pending |= bits & (r.events | EERR | EHUP);
                        if k < 8 {
                            hit[k] = i;
                            k += 1;
                        }
                    }
                }
            }
        }
        for &e in &hit[..k] {
            for i in 0..self.thr.len() {
                if self.thr[i].block == (Block::Epoll { obj: e }) {
                    self.wake(i);
                }
            }
        }
    }
    pub fn notify_conn(&mut self, c: usize, bits: u32) {
        for i in 0..self.objs.len() {
            if matches!(self.objs[i].0, Obj::Conn(x) if x == c) {
                self.notify(i, bits);
                return;
            }
        }
    }

    pub fn epoll_ctl(&mut self, ep: usize, op: i32, fd: i32, events: u32, data: u64) -> i32 {
        let obj = match self.obj_of(fd) {
            Some(o) => o,
            None => return libc::EPERM,
        };
        let ready = self.ready(obj);
        let regs = match &mut self.objs[ep].0 {
            Obj::Epoll(r) => r,
            _ => return libc::EINVAL,
        };
        let at = regs.iter().position(|r| r.fd == fd);
        match op {
            libc::EPOLL_CTL_ADD => {
                if at.is_some() {
                    return libc::EEXIST;
                }
                regs.push(Reg { fd, obj, events, data, pending: 0 });
            }
            libc::EPOLL_CTL_MOD => match at {
                Some(i) => {
                    regs[i].events = events;
                    regs[i].data = data;
                    regs[i].pending = 0;
                }
                None => return libc::ENOENT,
            },
            _ => match at {
                Some(i) => {
                    regs.remove(i);
                    return 0;
                }
                None => return libc::ENOENT,
            },
        }
        if ready & (events | EERR | EHUP) != 0 {
            self.notify(obj, ready);
        }
        0
    }

    /// Take ready edges (a seeded, non-empty subset in seeded order).
    pub fn epoll_take(&mut self, ep: usize, max: usize) -> Vec<(u32, u64)> {
        let mut idx: Vec<usize> = vec![];
        let n = match &self.objs[ep].0 {
            Obj::Epoll(r) => r.len(),
            _ => 0,
        };
        for i in 0..n {
            let (obj, ev, pend) = match &self.objs[ep].0 {
                Obj::Epoll(r) => (r[i].obj, r[i].events, r[i].pending),
                _ => unreachable!(),
            };
            let level = ev & libc::EPOLLET as u32 == 0;
            if (pend != 0 || level) && self.ready(obj) & (ev | EERR | EHUP) != 0 {
                idx.push(i);
            } else if pend != 0 && !level {
                if let Obj::Epoll(r) = &mut self.objs[ep].0 {
                    r[i].pending = 0;
                }
            }
        }
        if idx.is_empty() {
            return vec![];
        }
        // shuffle, and take some
        for i in (1..idx.len()).rev() {
            let j = self.rng.below(i + 1);
            idx.swap(i, j);
        }
        let k = if self.rng.chance(1, 2) { idx.len() } else { self.rng.range(1, idx.len()) };
        idx.truncate(k.min(max));
        let mut out = vec![];
        for i in idx {
            let obj = match &self.objs[ep].0 {
                Obj::Epoll(r) => r[i].obj,
                _ => unreachable!(),
            };
            let rd = self.ready(obj);
            if let Obj::Epoll(r) = &mut self.objs[ep].0 {
                out.push((rd & (r[i].events | EERR | EHUP), r[i].data));
                r[i].pending = 0;
            }
        }
        out
    }

    // ------------------------------------------------------------ network
    fn latency(&mut self) -> u64 {
        let (a, b) = self.conf.lat;
        logrange(&mut self.rng, a, b)
    }

    fn server_close(&mut self, c: usize) {
        let lat = self.latency();
        let (rst, already) = {
            let k = &mut self.conns[c];
            let rst = !k.rbuf.is_empty() && !k.dead;
            k.srv_closed = true;
            let a = k.srv_fin;
            k.srv_fin = true;
            if rst {
                k.srv_rst = true;
                k.out.clear();
            }
            (rst, a)
        };
        let _ = already;
        if rst {
            self.at(self.now + lat, Ev::Eof(c, true));
        } else {
            self.pump_soon(c);
        }
        let cl = self.conns[c].client;
        self.log(&format!("K {}", cl));
    }

    pub fn pump_soon(&mut self, c: usize) {
        if self.conns[c].pumping {
            return;
        }
        self.conns[c].pumping = true;
        let lat = self.latency();
        self.at(self.now + lat, Ev::Pump(c));
    }

    /// The connection broke: `err` is what the server will be told.
    fn kill_conn(&mut self, c: usize, err: i32) {
        let k = &mut self.conns[c];
        if k.dead {
            return;
        }
        k.dead = true;
        k.err = err;
        k.out.clear();
        self.notify_conn(c, EIN | EOUT | EERR | EHUP | ERDHUP);
    }

    fn event(&mut self, e: Ev) {
        match e {
            Ev::PhaseStart(p) => {
                self.phase = p;
                self.phase_open = true;
                self.log(&format!("PHASE {} {} {}", p, self.steps, self.clock_reads));
                let t = self.now + self.phases[p].1;
                self.at(t, Ev::PhaseTimeout(p));
                for i in 0..self.clients.len() {
                    if self.clients[i].phase == p {
                        let t = self.now + self.clients[i].delay;
                        self.at(t, Ev::ClientStart(i));
                    }
                }
                self.phase_check();
            }
            Ev::PhaseTimeout(p) => {
                if self.phase == p && self.phase_open {
                    for i in 0..self.clients.len() {
                        if self.clients[i].phase <= p && !self.clients[i].done {
                            self.clients[i].done = true;
                            self.log(&format!("STUCK {}", i));
                        }
                    }
                    self.phase_check();
                }
            }
            Ev::ClientStart(i) => {
                self.clients[i].started = true;
                self.run_client(i);
            }
            Ev::ClientWake(i) => {
                self.clients[i].sleeping = false;
                self.run_client(i);
            }
            Ev::Arrive(c) => {
                let mut l = None;
                for (i, (o, _)) in self.objs.iter().enumerate() {
                    if let Obj::Listener { listening: true, .. } = o {
                        l = Some(i);
                    }
                }
                match l {
                    Some(l) => {
                        if let Obj::Listener { backlog, .. } = &mut self.objs[l].0 {
                            backlog.push_back(c);
                        }
                        self.notify(l, EIN);
                    }
                    None => {
                        // nobody listens yet: try again
                        let t = self.now + 5_000_000;
                        self.at(t, Ev::Arrive(c));
                    }
                }
            }
            Ev::C2S(c, data) => {
                let k = &mut self.conns[c];
                if k.dead {
                    return;
                }
                if k.srv_closed {
                    // data for a closed socket: reset
                    k.rbuf.clear();
                    k.srv_rst = true;
                    k.out.clear();
                    let lat = self.latency();
                    self.at(self.now + lat, Ev::Eof(c, true));
                    return;
                }
                k.rbuf.extend(data.iter());
                let cl = k.client;
                self.log(&format!("S {} {}", cl, data.len()));
                self.notify_conn(c, EIN);
            }
            Ev::FinArrive(c) => {
                let k = &mut self.conns[c];
                if k.dead {
                    return;
                }
                k.fin = true;
                let cl = k.client;
                self.log(&format!("F {}", cl));
                self.notify_conn(c, EIN | ERDHUP);
            }
            Ev::CloseArrive(c) => {
                let k = &mut self.conns[c];
                if k.dead {
                    return;
                }
                k.fin = true;
                let cl = k.client;
                self.log(&format!("F {}", cl));
                self.notify_conn(c, EIN | ERDHUP);
            }
            Ev::RstArrive(c) => {
                let cl = self.conns[c].client;
                self.log(&format!("RST {}", cl));
                if self.rng.chance(1, 2) {
                    self.conns[c].rbuf.clear();
                }
                self.kill_conn(c, libc::ECONNRESET);
            }
            Ev::TcpDead(c) => {
                let cl = self.conns[c].client;
                self.log(&format!("GONE {}", cl));
                self.kill_conn(c, libc::ETIMEDOUT);
            }
            Ev::Pump(c) => self.pump(c),
            Ev::Eof(c, rst) => {
                let cl = self.conns[c].client;
                if !self.conns[c].told_eof && !self.conns[c].vanished {
                    self.conns[c].told_eof = true;
                    self.log(&format!("E {} {}", cl, if rst { "rst" } else { "fin" }));
                    self.clients[cl].eof = true;
                    self.run_client(cl);
                }
            }
            Ev::Finish => self.finish("done", 0),
        }
    }

    fn pump(&mut self, c: usize) {
        self.conns[c].pumping = false;
        let cl = self.conns[c].client;
        if self.conns[c].dead {
            return;
        }
        if self.conns[c].vanished {
            if !self.conns[c].out.is_empty() && !self.conns[c].dead_timer {
                // retransmissions go unanswered
                self.conns[c].dead_timer = true;
                let t = self.now + 900_000_000_000 + (self.rng.next() % 200_000_000_000);
                self.at(t, Ev::TcpDead(c));
            }
            return;
        }
        if self.conns[c].cli_closed {
            if !self.conns[c].out.is_empty() {
                // data for a closed client socket: it answers with a reset
                let lat = self.latency();
                self.at(self.now + lat, Ev::RstArrive(c));
            }
            return;
        }
        if !self.clients[cl].reading {
            return;
        }
        let n = self.conns[c].out.len().min(self.clients[cl].chunk);
        if n > 0 {
            let data: Vec<u8> = self.conns[c].out.drain(..n).collect();
            self.log_hex(&format!("R {}", cl), &data);
            self.clients[cl].recv.extend_from_slice(&data);
            let cap = self.conf.sndcap;
            if self.conns[c].blocked_w && self.conns[c].out.len() <= cap * 2 / 3 {
                self.conns[c].blocked_w = false;
                self.notify_conn(c, EOUT);
            }
        }
        if !self.conns[c].out.is_empty() {
            self.conns[c].pumping = true;
            let iv = self.clients[cl].interval;
            let t = self.now + logrange(&mut self.rng, iv / 2, iv) + 1;
            self.at(t, Ev::Pump(c));
        } else if self.conns[c].srv_fin && !self.conns[c].srv_rst {
            let t = self.now + 1;
            self.at(t, Ev::Eof(c, false));
        }
        if n > 0 {
            self.run_client(cl);
        }
    }

    fn ws_scan(&mut self, i: usize) {
        let c = &mut self.clients[i];
        if c.ws_pos == 0 {
            match c.recv.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(p) => c.ws_pos = p + 4,
                None => return,
            }
        }
        loop {
            let b = &c.recv[c.ws_pos..];
            if b.len() < 2 {
                return;
            }
            let mut len = (b[1] & 127) as usize;
            let mut h = 2;
            if len == 126 {
                if b.len() < 4 {
                    return;
                }
                len = (b[2] as usize) << 8 | b[3] as usize;
                h = 4;
            } else if len == 127 {
                if b.len() < 10 {
                    return;
                }
                len = b[2..10].iter().fold(0usize, |a, &x| a << 8 | x as usize);
                h = 10;
            }
            if b[1] & 128 != 0 {
                h += 4;
            }
            if b.len() < h + len {
                return;
            }
            if b[0] & 15 == 8 {
                c.ws_close = true;
            }
            c.ws_msgs += 1;
            c.ws_pos += h + len;
        }
    }

    fn run_client(&mut self, i: usize) {
        loop {
            if !self.clients[i].started || self.clients[i].sleeping || self.clients[i].done {
                return;
            }
            let op = match self.clients[i].ops.front() {
                Some(o) => o.clone(),
                None => {
                    self.clients[i].done = true;
                    self.log(&format!("D {}", i));
                    self.phase_check();
                    return;
                }
            };
            let eof = self.clients[i].eof;
            let conn = self.clients[i].conn;
            let wait = match op {
                Op::Connect => {
                    let c = self.conns.len();
                    self.conns.push(Conn { client: i, ..Default::default() });
                    self.clients[i].conn = Some(c);
                    let lat = self.latency();
                    self.conns[c].c2s_last = self.now + lat;
                    self.log(&format!("C {}", i));
                    let t = self.now + lat;
                    self.at(t, Ev::Arrive(c));
                    false
                }
                Op::Send(data, seg, gap) => {
                    if let (Some(c), false) = (conn, eof) {
                        let mut p = 0;
                        let mut t = self.conns[c].c2s_last.max(self.now);
                        while p < data.len() {
                            let n = if seg == 0 { data.len() - p } else { (1 + self.rng.loguniform(seg as u64 - 1) as usize).min(data.len() - p) };
                            t += self.latency() + if p > 0 { self.rng.loguniform(gap) } else { 0 };
                            self.at(t, Ev::C2S(c, data[p..p + n].to_vec()));
                            p += n;
                        }
                        self.conns[c].c2s_last = t;
                    }
                    false
                }
                Op::WaitLen(n) => !eof && self.clients[i].recv.len() - self.clients[i].mark < n,
                Op::WaitPat(p) => {
                    let m = self.clients[i].mark;
                    match self.clients[i].recv[m..].windows(p.len()).position(|w| w == &p[..]) {
                        Some(x) => {
                            self.clients[i].mark = m + x + p.len();
                            false
                        }
                        None => !eof,
                    }
                }
                Op::WaitMsg(n) => {
                    self.ws_scan(i);
                    if self.clients[i].ws_msgs - self.clients[i].ws_mark >= n {
                        self.clients[i].ws_mark = self.clients[i].ws_msgs;
                        false
                    } else {
                        !eof && !self.clients[i].ws_close
                    }
                }
                Op::WaitWsClose => {
                    self.ws_scan(i);
                    !eof && !self.clients[i].ws_close
                }
                Op::WaitEof => !eof,
                Op::Sleep(ns) => {
                    self.clients[i].sleeping = true;
                    let t = self.now + ns;
                    self.at(t, Ev::ClientWake(i));
                    false
                }
                Op::Fin => {
                    if let Some(c) = conn {
                        let t = self.conns[c].c2s_last.max(self.now) + self.latency();
                        self.conns[c].c2s_last = t;
                        self.at(t, Ev::FinArrive(c));
                        self.log(&format!("FIN {}", i));
                        self.count("fault.client_half_close");
                    }
                    false
                }
                Op::Close => {
                    if let Some(c) = conn {
                        let t = self.conns[c].c2s_last.max(self.now) + self.latency();
                        self.conns[c].c2s_last = t;
                        self.log(&format!("CLOSE {}", i));
                        // unread data makes it a reset
                        let unread = !self.conns[c].out.is_empty();
                        self.conns[c].cli_closed = true;
                        if unread {
                            self.at(t, Ev::RstArrive(c));
                        } else {
                            self.at(t, Ev::CloseArrive(c));
                        }
                        if !eof {
                            self.count("fault.client_close");
                        }
                    }
                    false
                }
                Op::Rst => {
                    if let Some(c) = conn {
                        let t = self.conns[c].c2s_last.max(self.now) + self.latency();
                        self.conns[c].cli_closed = true;
                        self.at(t, Ev::RstArrive(c));
                        self.count("fault.client_reset");
                    }
                    false
                }
                Op::Vanish => {
                    if let Some(c) = conn {
                        self.conns[c].vanished = true;
                        self.log(&format!("VANISH {}", i));
                        self.count("fault.client_vanish");
                        self.pump_soon(c);
                    }
                    false
                }
                Op::Read(chunk, iv) => {
                    self.clients[i].chunk = chunk.max(1);
                    self.clients[i].interval = iv;
                    self.clients[i].reading = true;
                    if let Some(c) = conn {
                        self.pump_soon(c);
                    }
                    false
                }
                Op::StopRead => {
                    self.clients[i].reading = false;
                    self.count("fault.client_stops_reading");
                    false
                }
                Op::Mark(m) => {
                    self.log(&format!("M {} {}", i, m));
                    false
                }
            };
            if wait {
                return;
            }
            self.clients[i].ops.pop_front();
        }
    }

    fn phase_check(&mut self) {
        if !self.phase_open {
            return;
        }
        let p = self.phase;
        if self.clients.iter().any(|c| c.phase <= p && !c.done) {
            return;
        }
        self.phase_open = false;
        let t = self.now + self.phases[p].0;
        if p + 1 < self.phases.len() {
            self.at(t, Ev::PhaseStart(p + 1));
        } else {
            self.at(t, Ev::Finish);
        }
    }
}

pub unsafe fn wait_turn(w: &AtomicU32) {
    while w.load(Ordering::SeqCst) == 0 {
        futex_wait(w.as_ptr(), 0);
    }
    w.store(0, Ordering::SeqCst);
}

pub fn new_thread(s: &mut Sim) -> usize {
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    s.thr.push(Thr { word, block: Block::Sleep, until: NEVER, timed_out: false, stalled_until: 0, pthread: 0 });
    s.thr.len() - 1
}

/// The current thread is gone: hand over and do not wait.
pub unsafe fn thread_exit(s: &mut Sim) {
    let my = me();
    s.thr[my].block = Block::Exited;
    for i in 0..s.thr.len() {
        if s.thr[i].block == (Block::Join { tid: my }) {
            s.wake(i);
        }
    }
    let to = s.pick();
    s.switches += 1;
    s.sched_hash = rng::mix(s.sched_hash, to as u64);
    let o = s.thr[to].word;
    TID.with(|t| t.set(-1));
    o.store(1, Ordering::SeqCst);
    futex_wake(o.as_ptr(), 1);
}

// ---------------------------------------------------------------- configuration

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| {
            let d = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
            d(b[2 * i]) << 4 | d(b[2 * i + 1])
        })
        .collect()
}

fn parse(conf: &str, s: &mut Sim) {
    for line in conf.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
        let odds = |i: usize| Odds(n(i) as u32, n(i + 1) as u32);
        let c = &mut s.conf;
        match w[0] {
            "seed" => {
                s.rng = Rng::new(n(1));
                s.rnd = Rng::new(rng::mix(n(1), 99));
            }
            "server" => s.server = true,
            "switch" => c.switch = odds(1),
            "stall" => c.stall = (odds(1), n(3)),
            "tick" => c.tick = (n(1), n(2)),
            "jump" => c.jump = (odds(1), n(3)),
            "rtstep" => c.rtstep = (odds(1), n(3)),
            "spurious" => c.spurious = odds(1),
            "lat" => c.lat = (n(1), n(2)),
            "sndcap" => c.sndcap = n(1) as usize,
            "acceptfail" => c.acceptfail = odds(1),
            "maxtime" => c.max_time = n(1),
            "maxsteps" => c.max_steps = n(1),
            "prefix" => c.prefix = w[1].as_bytes().to_vec(),
            "rshort" => c.rshort = odds(1),
            "reintr" => c.reintr = odds(1),
            "eio" => c.eio = Some((n(1), w[2].as_bytes().to_vec())),
            "eioonce" => {
                c.eio = Some((n(1), w[2].as_bytes().to_vec()));
                c.eio_once = true;
            }
            "openfail" => c.openfail = Some((n(1) as i32, w[2].as_bytes().to_vec())),
            "shuffle" => c.shuffle = true,
            "oshort" => c.oshort = odds(1),
            "oeintr" => c.oeintr = odds(1),
            "ofail" => c.ofail = Some((n(1), n(2) as i32)),
            "alloc" => {
                api::ALLOC_FAILS.store(n(2), Ordering::SeqCst);
                api::ALLOC_LEFT.store(n(1) as i64, Ordering::SeqCst);
            }
            "phase" => s.phases.push((n(1), n(2))),
            "client" => s.clients.push(Client {
                phase: n(1) as usize,
                delay: n(2),
                ops: VecDeque::new(),
                conn: None,
                started: false,
                done: false,
                recv: vec![],
                mark: 0,
                ws_pos: 0,
                ws_msgs: 0,
                ws_mark: 0,
                ws_close: false,
                eof: false,
                sleeping: false,
                chunk: 65536,
                interval: 1000,
                reading: true,
            }),
            op => {
                let o = match op {
                    "connect" => Op::Connect,
                    "send" => Op::Send(unhex(w.get(3).copied().unwrap_or("")), n(1) as usize, n(2)),
                    "waitlen" => Op::WaitLen(n(1) as usize),
                    "waitpat" => Op::WaitPat(unhex(w[1])),
                    "waitmsg" => Op::WaitMsg(n(1) as usize),
                    "waitwsclose" => Op::WaitWsClose,
                    "waiteof" => Op::WaitEof,
                    "sleep" => Op::Sleep(n(1)),
                    "fin" => Op::Fin,
                    "close" => Op::Close,
                    "rst" => Op::Rst,
                    "vanish" => Op::Vanish,
                    "read" => Op::Read(n(1) as usize, n(2)),
                    "stopread" => Op::StopRead,
                    "mark" => Op::Mark(w[1..].join(" ")),
                    _ => {
                        unsafe { exit_group(99) };
                    }
                };
                if let Some(c) = s.clients.last_mut() {
                    c.ops.push_back(o);
                }
            }
        }
    }
}

unsafe fn getenv(name: &[u8]) -> Option<Vec<u8>> {
    let p = libc::getenv(name.as_ptr() as *const _);
    if p.is_null() {
        None
    } else {
        Some(std::ffi::CStr::from_ptr(p).to_bytes().to_vec())
    }
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

extern "C" fn init() {
    unsafe {
        let conf = match getenv(b"SIMOS_CONF\0") {
            Some(c) => c,
            None => return,
        };
        let hist = getenv(b"SIMOS_HIST\0").unwrap_or_default();
        api::resolve();
        let text = match read_all(&conf) {
            Some(t) => t,
            None => exit_group(98),
        };
        let mut s = Box::new(Sim {
            conf: Conf { sndcap: 65536, max_time: 100_000_000_000_000, max_steps: 20_000_000, ..Default::default() },
            rng: Rng::new(1),
            rnd: Rng::new(1),
            now: 1_000_000_000,
            rt_offset: 0,
            steps: 0,
            full: false,
            clock_reads: 0,
            switches: 0,
            sched_hash: 0,
            thr: Vec::with_capacity(256),
            fds: vec![],
            files: vec![],
            objs: vec![],
            conns: vec![],
            clients: vec![],
            events: BinaryHeap::new(),
            seq: 0,
            phases: vec![],
            phase: 0,
            phase_open: false,
            stats: vec![],
            hist: std::ptr::null_mut(),
            hist_len: 0,
            out_bytes: 0,
            out_intr: false,
            eio_done: false,
            server: false,
            ended: false,
        });
        if !hist.is_empty() {
            let mut p = hist.clone();
            p.push(0);
            let fd = sc3(libc::SYS_open, p.as_ptr() as i64, (libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) as i64, 0o644);
            if fd < 0 {
                exit_group(97);
            }
            sc3(libc::SYS_ftruncate, fd, HIST_CAP as i64 + 8, 0);
            let m = sc6(libc::SYS_mmap, 0, HIST_CAP as i64 + 8, (libc::PROT_READ | libc::PROT_WRITE) as i64, libc::MAP_SHARED as i64, fd, 0);
            if m < 0 && m > -4096 {
                exit_group(96);
            }
            s.hist = m as *mut u8;
            sc3(libc::SYS_close, fd, 0, 0);
        }
        parse(&String::from_utf8_lossy(&text), &mut s);
        let t = new_thread(&mut s);
        s.thr[t].block = Block::Run;
        s.thr[t].pthread = libc::pthread_self();
        TID.with(|x| x.set(t as i32));
        if s.server && !s.phases.is_empty() {
            s.at(s.now + 1000, Ev::PhaseStart(0));
        }
        SIM = Box::into_raw(s);
    }
}

#[used]
#[link_section = ".fini_array"]
static FINI: extern "C" fn() = fini;

extern "C" fn fini() {
    if let Some(s) = sim() {
        s.end("exit");
    }
}
