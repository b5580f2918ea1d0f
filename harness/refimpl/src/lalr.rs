//! LALR(1) tables (LR(0) automaton + DeRemer-Pennello lookaheads) with bison's conflict rules.
use crate::grammar::{Assoc, Grammar};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act { Error, Shift(usize), Reduce(usize), Accept }

pub struct Lalr {
    /// kernel items (rule, dot) per state
    pub kernels: Vec<Vec<(usize, usize)>>,
    /// transition symbol -> state
    pub trans: Vec<HashMap<usize, usize>>,
    pub access: Vec<usize>,
    pub action: Vec<Vec<Act>>,
    /// conflicts left after precedence: (state, terminal)
    pub sr: Vec<(usize, usize)>,
    pub rr: Vec<(usize, usize)>,
    /// conflicts settled by precedence
    pub resolved: Vec<(usize, usize)>,
}

type Bits = Vec<u64>;
fn or(a: &mut Bits, b: &Bits) -> bool {
    let mut ch = false;
    for (x, y) in a.iter_mut().zip(b) { let n = *x | *y; ch |= n != *x; *x = n; }
    ch
}

impl Lalr {
    /// Can the parser reduce for ever on some lookahead? (possible when precedence settles the conflicts of a cyclic or left-recursive
    /// grammar with empty rules). An endless run has a state that it never pops and above which it keeps coming back to one symbol.
    pub fn endless(&self, g: &Grammar) -> bool {
        let mut st = vec![];
        for (p, tr) in self.trans.iter().enumerate() {
            for (&x, &q) in tr {
                if x < g.nt { continue; }
                for t in 0..g.nt {
                    st.clear();
                    st.extend([p, q]);
                    let mut steps = 0;
                    while let Act::Reduce(r) = self.action[*st.last().unwrap()][t] {
                        let n = g.rules[r].rhs.len();
                        if n >= st.len() { break; }
                        st.truncate(st.len() - n);
                        let Some(&to) = self.trans[*st.last().unwrap()].get(&g.rules[r].lhs) else { break };
                        st.push(to);
                        steps += 1;
                        if steps > 3000 { return true; }
                    }
                }
            }
        }
        false
    }
    pub fn new(g: &Grammar) -> Self {
        let nsym = g.names.len();
        // nullable
        let mut nullable = vec![false; nsym];
        loop {
            let mut ch = false;
            for r in &g.rules { if !nullable[r.lhs] && r.rhs.iter().all(|&s| nullable[s]) { nullable[r.lhs] = true; ch = true; } }
            if !ch { break; }
        }
        // left-corner closure over non-terminals
        let mut closure_nts: Vec<Vec<usize>> = vec![vec![]; nsym];
        for n in g.nt..nsym {
            let mut seen = vec![false; nsym];
            let mut st = vec![n];
            seen[n] = true;
            while let Some(x) = st.pop() {
                closure_nts[n].push(x);
                for &r in &g.rules_of[x] { if let Some(&s) = g.rules[r].rhs.first() { if s >= g.nt && !seen[s] { seen[s] = true; st.push(s); } } }
            }
        }
        // LR(0)
        let mut kernels: Vec<Vec<(usize, usize)>> = vec![vec![(0, 0)]];
        let mut map: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
        map.insert(kernels[0].clone(), 0);
        let mut trans: Vec<HashMap<usize, usize>> = vec![];
        let mut access = vec![usize::MAX];
        let mut i = 0;
        let mut mark = vec![usize::MAX; nsym];
        while i < kernels.len() {
            let mut items = kernels[i].clone();
            for &(r, d) in &kernels[i] {
                if let Some(&s) = g.rules[r].rhs.get(d) {
                    if s >= g.nt { for &n in &closure_nts[s] { if mark[n] != i { mark[n] = i; for &q in &g.rules_of[n] { items.push((q, 0)); } } } }
                }
            }
            let mut by: std::collections::BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
            for (r, d) in items { if let Some(&s) = g.rules[r].rhs.get(d) { by.entry(s).or_default().push((r, d + 1)); } }
            let mut t = HashMap::new();
            for (s, mut k) in by {
                k.sort();
                k.dedup();
                let id = *map.entry(k.clone()).or_insert_with(|| { kernels.push(k); access.push(s); kernels.len() - 1 });
                t.insert(s, id);
            }
            trans.push(t);
            i += 1;
        }
        let ns = kernels.len();
        // non-terminal transitions
        let mut ntt: Vec<(usize, usize)> = vec![];
        let mut nidx: HashMap<(usize, usize), usize> = HashMap::new();
        for s in 0..ns { let mut v: Vec<usize> = trans[s].keys().copied().filter(|&x| x >= g.nt).collect(); v.sort(); for x in v { nidx.insert((s, x), ntt.len()); ntt.push((s, x)); } }
        let w = (g.nt + 63) / 64;
        let n = ntt.len();
        let mut f: Vec<Bits> = vec![vec![0; w]; n];
        let mut reads: Vec<Vec<u32>> = vec![vec![]; n];
        for (k, &(p, a)) in ntt.iter().enumerate() {
            let r = trans[p][&a];
            for &s in trans[r].keys() {
                if s < g.nt { f[k][s / 64] |= 1 << (s % 64); } else if nullable[s] { reads[k].push(nidx[&(r, s)] as u32); }
            }
            if p == 0 && a == g.start { f[k][0] |= 1; } // $end
        }
        digraph(&reads, &mut f);
        let mut includes: Vec<Vec<u32>> = vec![vec![]; n];
        let mut lookback: HashMap<(usize, usize), Vec<u32>> = HashMap::new();
        for (k, &(p, a)) in ntt.iter().enumerate() {
            for &r in &g.rules_of[a] {
                let rhs = &g.rules[r].rhs;
                let mut st = p;
                for (i, &s) in rhs.iter().enumerate() {
                    if s >= g.nt && rhs[i + 1..].iter().all(|&x| nullable[x]) { includes[nidx[&(st, s)]].push(k as u32); }
                    st = trans[st][&s];
                }
                lookback.entry((st, r)).or_default().push(k as u32);
            }
        }
        digraph(&includes, &mut f);
        let mut action = vec![vec![Act::Error; g.nt]; ns];
        let (mut sr, mut rr, mut resolved) = (vec![], vec![], vec![]);
        for s in 0..ns {
            for (&x, &t) in &trans[s] { if x < g.nt { action[s][x] = Act::Shift(t); } }
            if kernels[s].contains(&(0, 1)) { action[s][0] = Act::Accept; }
            let mut reds: Vec<usize> = kernels[s].iter().filter(|&&(r, d)| r != 0 && d == g.rules[r].rhs.len()).map(|x| x.0).collect();
            // empty rules of the closure
            for &(r, d) in &kernels[s] { if let Some(&y) = g.rules[r].rhs.get(d) { if y >= g.nt { for &m in &closure_nts[y] { for &q in &g.rules_of[m] { if g.rules[q].rhs.is_empty() { reds.push(q); } } } } } }
            reds.sort();
            reds.dedup();
            let la: Vec<Bits> = reds.iter().map(|&r| { let mut b = vec![0u64; w]; for &k in &lookback[&(s, r)] { or(&mut b, &f[k as usize]); } b }).collect();
            for x in 0..g.nt {
                // bison: settle shift/reduce for each reduction in rule order, then reduce/reduce by rule order
                let mut killed = false;
                let mut cand = vec![];
                let mut shift = matches!(action[s][x], Act::Shift(_));
                let had_shift = shift;
                for (&r, b) in reds.iter().zip(&la) {
                    if b[x / 64] >> (x % 64) & 1 == 0 { continue; }
                    if !shift { cand.push(r); continue; }
                    match (g.rules[r].prec, g.prec[x]) {
                        (Some((rp, _)), Some((tp, ta))) => {
                            resolved.push((s, x));
                            if tp < rp { shift = false; cand.push(r); }
                            else if tp == rp {
                                match ta {
                                    Assoc::Right => {}
                                    Assoc::Left => { shift = false; cand.push(r) }
                                    Assoc::NonAssoc => { shift = false; killed = true }
                                    Assoc::Precedence => { sr.push((s, x)); resolved.pop(); }
                                }
                            }
                        }
                        _ => { sr.push((s, x)); cand.push(r); }
                    }
                }
                if cand.len() > 1 { rr.push((s, x)); }
                if action[s][x] == Act::Accept {
                    if !cand.is_empty() { sr.push((s, x)); }
                    continue;
                }
                action[s][x] = if killed { Act::Error } else if shift { action[s][x] } else if let Some(&r) = cand.first() { Act::Reduce(r) } else { debug_assert!(!had_shift); Act::Error };
            }
        }
        Lalr { kernels, trans, access, action, sr, rr, resolved }
    }
}

/// DeRemer-Pennello digraph (iterative Tarjan)
fn digraph(rel: &[Vec<u32>], f: &mut [Bits]) {
    let n = rel.len();
    let mut low = vec![0usize; n];
    let mut stack: Vec<usize> = vec![];
    for root in 0..n {
        if low[root] != 0 { continue; }
        let mut call: Vec<(usize, usize, usize)> = vec![];
        stack.push(root);
        low[root] = stack.len();
        call.push((root, 0, stack.len()));
        while let Some(&mut (x, ref mut i, d)) = call.last_mut() {
            if *i < rel[x].len() {
                let y = rel[x][*i] as usize;
                if low[y] == 0 {
                    stack.push(y);
                    low[y] = stack.len();
                    call.push((y, 0, stack.len()));
                    continue;
                }
                *i += 1;
                low[x] = low[x].min(low[y]);
                if x != y { let fy = f[y].clone(); or(&mut f[x], &fy); }
            } else {
                if low[x] == d {
                    let fx = f[x].clone();
                    loop {
                        let t = stack.pop().unwrap();
                        low[t] = usize::MAX;
                        if t == x { break; }
                        f[t] = fx.clone();
                    }
                }
                call.pop();
            }
        }
    }
}
