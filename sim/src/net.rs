//! A simulated network with clocks: one event queue, ordered by simulated
//! time; the run's tape decides loss, duplication, delay (and so reordering),
//! partitions, crashes and restarts.
use crate::core::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Ev<M> {
    Msg { from: usize, to: usize, m: M },
    Timer { node: usize, epoch: u32, tag: u32 },
    Crash { node: usize },
    Restart { node: usize },
    Calm,
}

#[derive(Clone, Debug, Default)]
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub max_delay: u64,
    pub partitions: bool,
}

pub struct Net<'c, M: Clone> {
    pub ctx: &'c Ctx,
    pub now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev<M>>,
    pub cfg: NetCfg,
    /// (from, until, nodes on one side)
    cuts: Vec<(u64, u64, u64)>,
    pub calm: bool,
    pub up: Vec<bool>,
    pub epoch: Vec<u32>,
    /// skew of each node's timers, in percent
    skew: Vec<u64>,
    pub delivered: u64,
}

impl<'c, M: Clone> Net<'c, M> {
    /// Faults are possible until `calm_at`.
    pub fn new(ctx: &'c Ctx, nodes: usize, calm_at: u64) -> Self {
        let cfg = NetCfg {
            drop: *ctx.pick(&[0u64, 1, 3]),
            dup: *ctx.pick(&[0u64, 1, 2]),
            max_delay: *ctx.pick(&[1u64, 20, 200]),
            partitions: ctx.chance(1, 3),
        };
        let mut n = Net {
            ctx,
            now: 0,
            seq: 0,
            q: BTreeMap::new(),
            cuts: vec![],
            calm: false,
            up: vec![true; nodes],
            epoch: vec![0; nodes],
            skew: (0..nodes).map(|_| *ctx.pick(&[100u64, 100, 50, 300])).collect(),
            delivered: 0,
            cfg,
        };
        if n.cfg.partitions {
            let from = ctx.draw(calm_at);
            let until = (from + 1 + ctx.draw(calm_at)).min(calm_at);
            let mask = 1 + ctx.draw((1 << nodes) - 1);
            n.cuts.push((from, until, mask));
            ctx.fault("net:partition");
        }
        for node in 0..nodes {
            if ctx.chance(1, 4) {
                let t = ctx.draw(calm_at);
                let d = 1 + ctx.draw(calm_at / 2);
                n.at(t, Ev::Crash { node });
                n.at((t + d).min(calm_at), Ev::Restart { node });
            }
        }
        n.at(calm_at, Ev::Calm);
        n
    }

    fn at(&mut self, t: u64, e: Ev<M>) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }

    pub fn timer(&mut self, node: usize, after: u64, tag: u32) {
        let t = self.now + (after * self.skew[node] / 100).max(1);
        let epoch = self.epoch[node];
        self.at(t, Ev::Timer { node, epoch, tag });
    }

    pub fn send(&mut self, from: usize, to: usize, m: M) {
        let c = self.ctx;
        if !self.calm && self.cfg.drop > 0 && c.draw(10) >= 10 - self.cfg.drop {
            c.fault("net:drop");
            return;
        }
        let mut copies = 1;
        if !self.calm && self.cfg.dup > 0 && c.draw(8) >= 8 - self.cfg.dup {
            copies = 2;
            c.fault("net:duplicate");
        }
        for _ in 0..copies {
            let d = if self.calm { 1 } else { 1 + c.draw(self.cfg.max_delay) };
            if d > 20 {
                c.fault("net:delay");
            }
            self.at(self.now + d, Ev::Msg { from, to, m: m.clone() });
        }
    }

    /// The next event that happens; `None`: nothing is left.
    pub fn next(&mut self) -> Option<Ev<M>> {
        loop {
            let (k, _) = self.q.iter().next()?;
            let k = *k;
            let e = self.q.remove(&k).unwrap();
            if k.0 > self.now {
                self.ctx.advance(k.0 - self.now);
                self.now = k.0;
            }
            match &e {
                Ev::Msg { from, to, .. } => {
                    if !self.up[*to] {
                        self.ctx.fault("net:to_dead_node");
                        continue;
                    }
                    let cut = self.cuts.iter().any(|(a, b, m)| self.now >= *a && self.now < *b && (m >> from & 1) != (m >> to & 1));
                    if cut {
                        self.ctx.fault("net:cut");
                        continue;
                    }
                    self.delivered += 1;
                }
                Ev::Timer { node, epoch, .. } => {
                    if !self.up[*node] || *epoch != self.epoch[*node] {
                        continue;
                    }
                }
                Ev::Crash { node } => {
                    self.up[*node] = false;
                    self.epoch[*node] += 1;
                    self.ctx.fault("node:crash");
                }
                Ev::Restart { node } => {
                    self.up[*node] = true;
                }
                Ev::Calm => {
                    self.calm = true;
                    self.cuts.clear();
                }
            }
            return Some(e);
        }
    }
}
