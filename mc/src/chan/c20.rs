//! C20: converting and transferring endpoints, against a model of two queues.
use crate::c03::{check_bag, Bag};
use crossmist::{asynchronous, func, Object};
use mc::ends::*;
use mc::files::*;
use mc::run::Tier;
use mc::stream::Mc;
use mc::sys::{self, Call, Kind};
use mc::util::{fd_flags, ino, pattern};
use mc::{choose, ensure, Scenario};
use std::collections::VecDeque;
use std::os::fd::{FromRawFd, IntoRawFd};

#[derive(Object)]
enum Ep {
    DS(crossmist::Duplex<Bag, Bag>),
    DA(asynchronous::Duplex<Mc, Bag, Bag>),
    TS(crossmist::Sender<Bag>),
    TA(asynchronous::Sender<Mc, Bag>),
    RS(crossmist::Receiver<Bag>),
    RA(asynchronous::Receiver<Mc, Bag>),
}

impl Ep {
    fn fd(&self) -> i32 {
        use std::os::fd::AsRawFd;
        match self {
            Ep::DS(e) => e.as_raw_fd(),
            Ep::DA(e) => e.as_raw_fd(),
            Ep::TS(e) => e.as_raw_fd(),
            Ep::TA(e) => e.as_raw_fd(),
            Ep::RS(e) => e.as_raw_fd(),
            Ep::RA(e) => e.as_raw_fd(),
        }
    }
    fn is_sync(&self) -> bool {
        matches!(self, Ep::DS(_) | Ep::TS(_) | Ep::RS(_))
    }
    fn is_duplex(&self) -> bool {
        matches!(self, Ep::DS(_) | Ep::DA(_))
    }
    fn can_send(&self) -> bool {
        !matches!(self, Ep::RS(_) | Ep::RA(_))
    }
    fn can_recv(&self) -> bool {
        !matches!(self, Ep::TS(_) | Ep::TA(_))
    }
    fn send(&mut self, b: &Bag) -> std::io::Result<()> {
        use mc::stream::block_on;
        match self {
            Ep::DS(e) => e.send(b),
            Ep::DA(e) => block_on(e.send(b)),
            Ep::TS(e) => e.send(b),
            Ep::TA(e) => block_on(e.send(b)),
            _ => unreachable!(),
        }
    }
    fn recv(&mut self, mut abandon: impl FnMut() -> bool) -> Option<std::io::Result<Option<Bag>>> {
        use mc::stream::block_on_until;
        match self {
            Ep::DS(e) => Some(e.recv()),
            Ep::DA(e) => block_on_until(e.recv(), |_| abandon()),
            Ep::RS(e) => Some(e.recv()),
            Ep::RA(e) => block_on_until(e.recv(), |_| abandon()),
            _ => unreachable!(),
        }
    }
    fn to_async(self) -> std::io::Result<Ep> {
        Ok(match self {
            Ep::DS(e) => Ep::DA(e.try_into()?),
            Ep::TS(e) => Ep::TA(e.try_into()?),
            Ep::RS(e) => Ep::RA(e.try_into()?),
            _ => unreachable!(),
        })
    }
    fn through_raw(self) -> Ep {
        unsafe {
            match self {
                Ep::DS(e) => Ep::DS(FromRawFd::from_raw_fd(e.into_raw_fd())),
                Ep::TS(e) => Ep::TS(FromRawFd::from_raw_fd(e.into_raw_fd())),
                Ep::RS(e) => Ep::RS(FromRawFd::from_raw_fd(e.into_raw_fd())),
                _ => unreachable!(),
            }
        }
    }
    fn into_sender(self) -> Ep {
        match self {
            Ep::DS(e) => Ep::TS(e.into_sender()),
            Ep::DA(e) => Ep::TA(e.into_sender()),
            _ => unreachable!(),
        }
    }
    fn into_receiver(self) -> Ep {
        match self {
            Ep::DS(e) => Ep::RS(e.into_receiver()),
            Ep::DA(e) => Ep::RA(e.into_receiver()),
            _ => unreachable!(),
        }
    }
}

fn shape(id: usize) -> (usize, usize) {
    [(7, 0), (2 * 16383 + 9, 2), (0, 1), (16380, 255), (40000, 0)][id % 5]
}

fn bag(id: usize) -> Bag {
    let (len, n) = shape(id);
    Bag { data: pattern(id as u32, len), files: (0..n).map(|k| dup((id * 11 + k) % POOL)).collect() }
}

fn check(b: &Bag, id: usize) -> Result<(), String> {
    let (len, n) = shape(id);
    let ids: Vec<usize> = (0..n).map(|k| (id * 11 + k) % POOL).collect();
    check_bag(b, &ids, &pattern(id as u32, len))
}

/// In the child: receive the next object if there is one, send what was asked for, and return all.
#[func]
fn visit(ep: Ep, receive: bool, send: Option<Bag>) -> (Ep, Option<Bag>) {
    let mut ep = ep;
    let mut got = None;
    if receive {
        got = ep.recv(|| false).unwrap().unwrap();
    }
    if let Some(b) = send {
        ep.send(&b).unwrap();
    }
    (ep, got)
}

/// One side: the endpoint or the channel it is currently in, and what it is to receive.
struct Side {
    ep: Option<Ep>,
    /// Another endpoint that is the same socket, as sending an endpoint does not consume it
    twin: Option<Ep>,
    parked: Option<Rx<Ep>>,
    incoming: VecDeque<usize>,
    /// Part of the first incoming object has been received by an abandoned operation.
    partial: bool,
    /// No endpoint of this side can receive.
    deaf: bool,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Send,
    Recv,
    Abandon,
    ToAsync,
    Raw,
    IntoSender,
    IntoReceiver,
    /// Send the endpoint through another channel and drop it.
    Park(Be, Be),
    Unpark,
    /// Send the endpoint through another channel and keep both.
    Copy,
    /// Use the other endpoint of the two.
    Swap,
    DropTwin,
    Child,
}

fn menu(side: &Side, peer: &Side, children: bool) -> Vec<Op> {
    let mut m = Vec::new();
    let Some(ep) = &side.ep else {
        return vec![Op::Unpark];
    };
    if ep.can_send() && peer.incoming.len() < 3 {
        // A side that has become a sender is not going to read it, but this does not concern the peer
        m.push(Op::Send);
    }
    if ep.can_recv() && !side.incoming.is_empty() {
        m.push(Op::Recv);
        if !side.partial && side.twin.is_none() && shape(side.incoming[0]).0 > 16383 {
            m.push(Op::Abandon);
        }
    }
    if ep.is_sync() {
        m.push(Op::ToAsync);
        if !side.partial {
            // A raw handle cannot carry the beginning of an object
            m.push(Op::Raw);
        }
    }
    if ep.is_duplex() {
        m.push(Op::IntoSender);
        m.push(Op::IntoReceiver);
    }
    m.push(Op::Park(Be::Sync, Be::Sync));
    m.push(Op::Park(Be::Async, Be::Async));
    if side.twin.is_some() {
        m.push(Op::Swap);
        m.push(Op::DropTwin);
    } else if !side.partial {
        // Which of the two would go on with an object received in part is not defined
        m.push(Op::Copy);
    }
    if children {
        m.push(Op::Child);
    }
    m
}

impl Side {
    /// Updates what the endpoints can do.
    fn hear(&mut self) {
        if ![&self.ep, &self.twin].into_iter().flatten().any(|e| e.can_recv()) {
            self.deaf = true;
            self.incoming.clear();
            self.partial = false;
        }
    }
}

struct World {
    sides: [Side; 2],
    next: usize,
    children: usize,
}

impl World {
    fn options(&self) -> Vec<(usize, Op)> {
        let mut v = Vec::new();
        for s in 0..2 {
            for o in menu(&self.sides[s], &self.sides[1 - s], self.children > 0) {
                v.push((s, o));
            }
        }
        v
    }

    fn step(&mut self, s: usize, op: Op) -> Result<(), String> {
        let io = |what: &'static str| move |e: std::io::Error| format!("{what}: {e}");
        let [a, b] = &mut self.sides;
        let (me, peer) = if s == 0 { (a, b) } else { (b, a) };
        match op {
            Op::Send => {
                let id = self.next;
                self.next += 1;
                let o = sys::uncontrolled(|| bag(id));
                me.ep.as_mut().unwrap().send(&o).map_err(io("send"))?;
                if !peer.deaf {
                    peer.incoming.push_back(id);
                }
            }
            Op::Recv => {
                let id = me.incoming.pop_front().unwrap();
                me.partial = false;
                let o = me.ep.as_mut().unwrap().recv(|| false).unwrap().map_err(io("recv"))?.ok_or("object lost: end of stream instead")?;
                check(&o, id)?;
            }
            Op::Abandon => {
                // Receive one packet, then have nothing available and be dropped, or fail
                let mut n = 0;
                let sync = me.ep.as_ref().unwrap().is_sync();
                sys::set_policy(Box::new(move |c: &Call| {
                    if c.kind == Kind::Recvmsg {
                        n += 1;
                        if n > 1 {
                            return if sync { libc::ENOMEM } else { libc::EAGAIN };
                        }
                    }
                    0
                }));
                let r = me.ep.as_mut().unwrap().recv(|| true);
                sys::clear_policy();
                ensure!(if sync { matches!(r, Some(Err(_))) } else { r.is_none() }, "an abandoned or failing receive completed");
                me.partial = true;
            }
            Op::ToAsync => me.ep = Some(me.ep.take().unwrap().to_async().map_err(io("conversion"))?),
            Op::Raw => me.ep = Some(me.ep.take().unwrap().through_raw()),
            Op::IntoSender => {
                me.ep = Some(me.ep.take().unwrap().into_sender());
                me.hear();
            }
            Op::IntoReceiver => {
                me.ep = Some(me.ep.take().unwrap().into_receiver());
            }
            Op::Park(x, y) => {
                let (mut tx, rx) = channel::<Ep>((x, y), 0);
                let ep = me.ep.take().unwrap();
                tx.send(&ep).map_err(io("sending an endpoint"))?;
                me.parked = Some(rx);
            }
            Op::Unpark => {
                let mut rx = me.parked.take().unwrap();
                let old = rx.recv().map_err(io("receiving an endpoint"))?.ok_or("endpoint lost")?;
                me.ep = Some(old);
            }
            Op::Copy => {
                let (mut tx, mut rx) = channel::<Ep>((Be::Sync, Be::Sync), 0);
                tx.send(me.ep.as_ref().unwrap()).map_err(io("sending an endpoint"))?;
                let new = rx.recv().map_err(io("receiving an endpoint"))?.ok_or("endpoint lost")?;
                me.twin = me.ep.replace(new);
            }
            Op::Swap => std::mem::swap(&mut me.ep, &mut me.twin),
            Op::DropTwin => {
                me.twin = None;
                me.hear();
            }
            Op::Child => {
                self.children -= 1;
                let ep = me.ep.take().unwrap();
                let receive = ep.can_recv() && !me.incoming.is_empty();
                let mut sent = None;
                if ep.can_send() && peer.incoming.len() < 3 {
                    sent = Some(self.next);
                    self.next += 1;
                }
                let o = sent.map(|id| sys::uncontrolled(|| bag(id)));
                let (ep, got) = visit.run(ep, receive, o).map_err(io("running a child with an endpoint"))?;
                me.ep = Some(ep);
                if receive {
                    let id = me.incoming.pop_front().unwrap();
                    me.partial = false;
                    check(&got.ok_or("object lost: end of stream in a child")?, id)?;
                }
                if let Some(id) = sent.filter(|_| !peer.deaf) {
                    peer.incoming.push_back(id);
                }
            }
        }
        if let Some(ep) = &me.ep {
            ensure!(fd_flags(ep.fd()) == libc::FD_CLOEXEC, "an endpoint is not close-on-exec after {op:?}");
        }
        Ok(())
    }

    /// Use the endpoint that can do something, if only one of the two can.
    fn want(&mut self, s: usize, can: fn(&Ep) -> bool) -> Result<(), String> {
        if self.sides[s].twin.as_ref().is_some_and(can) && !can(self.sides[s].ep.as_ref().unwrap()) {
            self.step(s, Op::Swap)?;
        }
        Ok(())
    }

    /// Receive all that is left, in both directions, then see the ends of the streams.
    fn finish(mut self) -> Result<(), String> {
        for s in 0..2 {
            if self.sides[s].parked.is_some() {
                self.step(s, Op::Unpark)?;
            }
        }
        for s in 0..2 {
            self.want(s, Ep::can_recv)?;
            while !self.sides[s].incoming.is_empty() {
                self.step(s, Op::Recv)?;
            }
            self.want(s, Ep::can_send)?;
            if self.sides[s].ep.as_ref().unwrap().can_send() {
                self.step(s, Op::Send)?;
                if !self.sides[1 - s].deaf {
                    self.want(1 - s, Ep::can_recv)?;
                    self.step(1 - s, Op::Recv)?;
                }
            }
        }
        let first = choose(2);
        // Unread objects of the side that is dropped are the business of C02
        self.sides[0].twin = None;
        self.sides[1].twin = None;
        let gone = self.sides[first].ep.take().unwrap();
        let was = ino(gone.fd());
        drop(gone);
        let mut rest = self.sides[1 - first].ep.take().unwrap();
        ensure!(ino(rest.fd()) != was, "both ends are one");
        if rest.can_recv() {
            let r = rest.recv(|| false).unwrap();
            ensure!(matches!(r, Ok(None)), "no end of stream after the peer was dropped");
        }
        if rest.can_send() {
            let o = sys::uncontrolled(|| bag(0));
            ensure!(rest.send(&o).is_err(), "sending to a dropped peer succeeded");
        }
        Ok(())
    }
}

fn start(k: usize) -> World {
    let side = |ep: Ep, deaf: bool| Side { ep: Some(ep), twin: None, parked: None, incoming: VecDeque::new(), partial: false, deaf };
    let sides = match k {
        0 => {
            let (x, y) = crossmist::duplex().unwrap();
            [side(Ep::DS(x), false), side(Ep::DS(y), false)]
        }
        1 => {
            let (x, y) = crossmist::channel().unwrap();
            [side(Ep::TS(x), true), side(Ep::RS(y), false)]
        }
        2 => {
            let (x, y) = asynchronous::duplex::<Mc, _, _>().unwrap();
            [side(Ep::DA(x), false), side(Ep::DA(y), false)]
        }
        _ => {
            let (x, y) = asynchronous::channel::<Mc, _>().unwrap();
            [side(Ep::TA(x), true), side(Ep::RA(y), false)]
        }
    };
    for s in &sides {
        set_sndbuf(s.ep.as_ref().unwrap().fd(), 4_000_000);
    }
    World { sides, next: 0, children: 0 }
}

fn history(k: usize, first: usize, depth: usize, children: usize, offset: usize) -> Result<String, String> {
    warm();
    let mut w = start(k);
    w.children = children;
    w.next = offset;
    let mut names = Vec::new();
    for i in 0..depth {
        let o = w.options();
        let c = if i == 0 { first } else { choose(o.len()) };
        if c >= o.len() {
            return Ok("~".into());
        }
        let (s, op) = o[c];
        names.push(format!("{}{op:?}", ["x", "y"][s]));
        sys::controlled(|| w.step(s, op)).map_err(|e| format!("{e} ({})", names.join(" ")))?;
    }
    sys::controlled(|| w.finish()).map_err(|e| format!("{e} ({}, then draining)", names.join(" ")))?;
    Ok(names.join(" "))
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    for k in 0..4 {
        for first in 0..20 {
            for offset in [0, 1] {
                let depth = if thorough { 5 } else { 4 - offset };
                v.push(Scenario::new(format!("seq/{k}/{first}/{offset}"), 0, move || history(k, first, depth, 0, offset)));
                let depth = if thorough { 4 } else { 3 - offset };
                v.push(Scenario::new(format!("child/{k}/{first}/{offset}"), 0, move || history(k, first, depth, 1 + thorough as usize, offset)));
            }
        }
    }
    v
}
