//! Stand-in for the EDBM zone library (git dependency that cannot be fetched here):
//! difference bound matrices and federations with the interface Reveaal uses.
pub mod util {
    pub mod constraints {
        pub type ClockIndex = usize;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Inequality {
            LS(i32),
            LE(i32),
        }
        impl Inequality {
            pub fn is_strict(&self) -> bool {
                matches!(self, Inequality::LS(_))
            }
            pub fn bound(&self) -> i32 {
                match self {
                    Inequality::LS(b) | Inequality::LE(b) => *b,
                }
            }
        }
        /// `None` is infinity; otherwise (bound, strict), smaller = tighter.
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct RawInequality(pub(crate) i64);
        pub(crate) const INF: i64 = i64::MAX;
        impl RawInequality {
            pub fn from_inequality(i: &Inequality) -> Self {
                match i {
                    Inequality::LS(b) => RawInequality((*b as i64) << 1),
                    Inequality::LE(b) => RawInequality(((*b as i64) << 1) | 1),
                }
            }
            pub fn inequality(&self) -> Inequality {
                if self.is_strict() {
                    Inequality::LS(self.bound())
                } else {
                    Inequality::LE(self.bound())
                }
            }
            pub fn is_strict(&self) -> bool {
                self.0 & 1 == 0
            }
            pub fn is_inf(&self) -> bool {
                self.0 == INF
            }
            pub fn bound(&self) -> i32 {
                (self.0 >> 1) as i32
            }
        }
        impl std::fmt::Debug for RawInequality {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                if self.is_inf() {
                    return write!(f, "<inf");
                }
                write!(f, "{}{}", if self.is_strict() { "<" } else { "<=" }, self.bound())
            }
        }
        impl From<Inequality> for RawInequality {
            fn from(i: Inequality) -> Self {
                RawInequality::from_inequality(&i)
            }
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct Constraint {
            pub i: ClockIndex,
            pub j: ClockIndex,
            ineq: RawInequality,
        }
        impl Constraint {
            pub fn new(i: ClockIndex, j: ClockIndex, ineq: RawInequality) -> Self {
                Constraint { i, j, ineq }
            }
            pub fn ineq(&self) -> RawInequality {
                self.ineq
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct Conjunction {
            pub constraints: Vec<Constraint>,
        }
        impl Conjunction {
            pub fn new(constraints: Vec<Constraint>) -> Self {
                Conjunction { constraints }
            }
            pub fn iter(&self) -> std::slice::Iter<'_, Constraint> {
                self.constraints.iter()
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct Disjunction {
            pub conjunctions: Vec<Conjunction>,
        }
        impl Disjunction {
            pub fn new(conjunctions: Vec<Conjunction>) -> Self {
                Disjunction { conjunctions }
            }
            pub fn iter(&self) -> std::slice::Iter<'_, Conjunction> {
                self.conjunctions.iter()
            }
        }
    }
    pub mod bounds {
        use super::constraints::ClockIndex;
        /// Maximal lower and upper constants per clock.
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct Bounds {
            lower: Vec<Option<i32>>,
            upper: Vec<Option<i32>>,
        }
        fn raise(s: &mut Option<i32>, v: i32) {
            *s = Some(s.map_or(v, |o| o.max(v)));
        }
        impl Bounds {
            pub fn new(dim: ClockIndex) -> Self {
                let mut b = Bounds { lower: vec![None; dim], upper: vec![None; dim] };
                if dim > 0 {
                    b.lower[0] = Some(0);
                    b.upper[0] = Some(0);
                }
                b
            }
            pub fn dim(&self) -> ClockIndex {
                self.lower.len()
            }
            pub fn add_lower(&mut self, clock: ClockIndex, v: i32) {
                raise(&mut self.lower[clock], v);
            }
            pub fn add_upper(&mut self, clock: ClockIndex, v: i32) {
                raise(&mut self.upper[clock], v);
            }
            pub fn get_lower(&self, clock: ClockIndex) -> Option<i32> {
                self.lower[clock]
            }
            pub fn get_upper(&self, clock: ClockIndex) -> Option<i32> {
                self.upper[clock]
            }
            pub fn add_bounds(&mut self, o: &Bounds) {
                assert_eq!(self.dim(), o.dim());
                for i in 0..self.dim() {
                    if let Some(v) = o.lower[i] {
                        raise(&mut self.lower[i], v);
                    }
                    if let Some(v) = o.upper[i] {
                        raise(&mut self.upper[i], v);
                    }
                }
            }
        }
    }
}
pub mod zones {
    use super::util::bounds::Bounds;
    use super::util::constraints::*;
    use std::ops;
    const LE0: i64 = 1;
    fn add(a: i64, b: i64) -> i64 {
        if a == INF || b == INF {
            return INF;
        }
        (((a >> 1) + (b >> 1)) << 1) | (a & b & 1)
    }
    fn neg(a: i64) -> i64 {
        // complement of (x <= b): -x < -b
        ((-(a >> 1)) << 1) | (1 - (a & 1))
    }
    #[derive(Clone, PartialEq, Eq, Debug)]
    struct Dbm {
        dim: usize,
        m: Vec<i64>,
    }
    impl Dbm {
        fn universe(dim: usize) -> Self {
            let mut d = Dbm { dim, m: vec![INF; dim * dim] };
            for i in 0..dim {
                d.m[i * dim + i] = LE0;
                d.m[i] = LE0;
            }
            d
        }
        fn zero(dim: usize) -> Self {
            Dbm { dim, m: vec![LE0; dim * dim] }
        }
        fn at(&self, i: usize, j: usize) -> i64 {
            self.m[i * self.dim + j]
        }
        fn set(&mut self, i: usize, j: usize, v: i64) {
            self.m[i * self.dim + j] = v;
        }
        fn close(&mut self) -> bool {
            let n = self.dim;
            for k in 0..n {
                for i in 0..n {
                    let ik = self.at(i, k);
                    if ik == INF {
                        continue;
                    }
                    for j in 0..n {
                        let v = add(ik, self.at(k, j));
                        if v < self.at(i, j) {
                            self.set(i, j, v);
                        }
                    }
                }
                if (0..n).any(|i| self.at(i, i) < LE0) {
                    return false;
                }
            }
            true
        }
        fn constrain(mut self, i: usize, j: usize, v: i64) -> Option<Self> {
            if v >= self.at(i, j) {
                return Some(self);
            }
            self.set(i, j, v);
            if self.close() {
                Some(self)
            } else {
                None
            }
        }
        fn inter(&self, o: &Dbm) -> Option<Dbm> {
            let mut r = self.clone();
            for x in 0..r.m.len() {
                r.m[x] = r.m[x].min(o.m[x]);
            }
            if r.close() {
                Some(r)
            } else {
                None
            }
        }
        fn sub_of(&self, o: &Dbm) -> bool {
            self.m.iter().zip(&o.m).all(|(a, b)| a <= b)
        }
        fn minus(&self, o: &Dbm) -> Vec<Dbm> {
            let mut res = vec![];
            if self.inter(o).is_none() {
                return vec![self.clone()];
            }
            let mut rest = self.clone();
            for i in 0..self.dim {
                for j in 0..self.dim {
                    if i == j || o.at(i, j) == INF || o.at(i, j) >= rest.at(i, j) {
                        continue;
                    }
                    if let Some(p) = rest.clone().constrain(j, i, neg(o.at(i, j))) {
                        res.push(p);
                    }
                    match rest.constrain(i, j, o.at(i, j)) {
                        Some(r) => rest = r,
                        None => return res,
                    }
                }
            }
            res
        }
        fn up(&mut self) {
            for i in 1..self.dim {
                self.set(i, 0, INF);
            }
        }
        fn down(&mut self) {
            for j in 1..self.dim {
                let mut v = LE0;
                for i in 1..self.dim {
                    v = v.min(self.at(i, j));
                }
                self.set(0, j, v);
            }
            self.close();
        }
        fn free(&mut self, c: usize) {
            for i in 0..self.dim {
                if i != c {
                    self.set(c, i, INF);
                    self.set(i, c, self.at(i, 0));
                }
            }
        }
    }
    #[derive(Clone)]
    pub struct OwnedFederation {
        dim: usize,
        dbms: Vec<Dbm>,
    }
    impl std::fmt::Debug for OwnedFederation {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "Federation{:?}", self.minimal_constraints())
        }
    }
    impl std::fmt::Display for OwnedFederation {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            if self.dbms.is_empty() {
                return write!(f, "false");
            }
            for (k, conj) in self.minimal_constraints().iter().enumerate() {
                if k > 0 {
                    write!(f, " || ")?;
                }
                write!(f, "(")?;
                for (n, c) in conj.iter().enumerate() {
                    if n > 0 {
                        write!(f, " && ")?;
                    }
                    write!(f, "{}-{}{:?}", c.i, c.j, c.ineq())?;
                }
                write!(f, ")")?;
            }
            Ok(())
        }
    }
    impl OwnedFederation {
        fn of(dim: usize, dbms: Vec<Dbm>) -> Self {
            let mut r: Vec<Dbm> = vec![];
            for d in dbms {
                if r.iter().any(|o| d.sub_of(o)) {
                    continue;
                }
                r.retain(|o| !o.sub_of(&d));
                r.push(d);
            }
            OwnedFederation { dim, dbms: r }
        }
        fn check(&self, o: &Self) {
            assert_eq!(self.dim, o.dim, "federation dimensions differ");
        }
        pub fn universe(dim: ClockIndex) -> Self {
            Self::of(dim, vec![Dbm::universe(dim)])
        }
        pub fn empty(dim: ClockIndex) -> Self {
            Self::of(dim, vec![])
        }
        pub fn init(dim: ClockIndex) -> Self {
            let mut d = Dbm::zero(dim);
            d.up();
            Self::of(dim, vec![d])
        }
        pub fn zero(dim: ClockIndex) -> Self {
            Self::of(dim, vec![Dbm::zero(dim)])
        }
        pub fn from_disjunction(disj: &Disjunction, dim: ClockIndex) -> Self {
            let mut r = vec![];
            for c in &disj.conjunctions {
                let mut d = Some(Dbm::universe(dim));
                for k in &c.constraints {
                    d = d.and_then(|d| d.constrain(k.i, k.j, k.ineq().0));
                }
                r.extend(d);
            }
            Self::of(dim, r)
        }
        pub fn from_conjunction(c: &Conjunction, dim: ClockIndex) -> Self {
            Self::from_disjunction(&Disjunction::new(vec![c.clone()]), dim)
        }
        pub fn dim(&self) -> ClockIndex {
            self.dim
        }
        pub fn size(&self) -> usize {
            self.dbms.len()
        }
        pub fn is_empty(&self) -> bool {
            self.dbms.is_empty()
        }
        pub fn is_universe(&self) -> bool {
            Self::universe(self.dim).subset_eq(self)
        }
        pub fn set_empty(self) -> Self {
            Self::empty(self.dim)
        }
        pub fn set_universe(self) -> Self {
            Self::universe(self.dim)
        }
        pub fn set_init(self) -> Self {
            Self::init(self.dim)
        }
        pub fn union(self, o: &Self) -> Self {
            self.check(o);
            let mut v = self.dbms;
            v.extend(o.dbms.iter().cloned());
            Self::of(self.dim, v)
        }
        pub fn append(self, o: &Self) -> Self {
            self.union(o)
        }
        pub fn intersection(self, o: &Self) -> Self {
            self.check(o);
            let mut v = vec![];
            for a in &self.dbms {
                for b in &o.dbms {
                    v.extend(a.inter(b));
                }
            }
            Self::of(self.dim, v)
        }
        pub fn subtraction(self, o: &Self) -> Self {
            self.check(o);
            let mut cur = self.dbms;
            for b in &o.dbms {
                cur = cur.iter().flat_map(|a| a.minus(b)).collect();
            }
            Self::of(self.dim, cur)
        }
        pub fn inverse(self) -> Self {
            Self::universe(self.dim).subtraction(&self)
        }
        pub fn has_intersection(&self, o: &Self) -> bool {
            !self.clone().intersection(o).is_empty()
        }
        pub fn subset_eq(&self, o: &Self) -> bool {
            self.clone().subtraction(o).is_empty()
        }
        pub fn equals(&self, o: &Self) -> bool {
            self.subset_eq(o) && o.subset_eq(self)
        }
        fn per<F: FnMut(Dbm) -> Option<Dbm>>(self, f: F) -> Self {
            Self::of(self.dim, self.dbms.into_iter().filter_map(f).collect())
        }
        pub fn constrain(self, i: ClockIndex, j: ClockIndex, ineq: Inequality) -> Self {
            let v = RawInequality::from_inequality(&ineq).0;
            self.per(|d| d.constrain(i, j, v))
        }
        pub fn constrain_eq(self, i: ClockIndex, val: i32) -> Self {
            self.constrain(i, 0, Inequality::LE(val)).constrain(0, i, Inequality::LE(-val))
        }
        pub fn constrain_many(
            self,
            cs: impl IntoIterator<Item = (ClockIndex, ClockIndex, Inequality)>,
        ) -> Self {
            cs.into_iter().fold(self, |f, (i, j, q)| f.constrain(i, j, q))
        }
        pub fn up(self) -> Self {
            self.per(|mut d| {
                d.up();
                Some(d)
            })
        }
        pub fn down(self) -> Self {
            self.per(|mut d| {
                d.down();
                Some(d)
            })
        }
        pub fn predt(&self, bad: &Self) -> Self {
            self.check(bad);
            let mut res = self.clone().down();
            for b in &bad.dbms {
                let b1 = Self::of(self.dim, vec![b.clone()]);
                let bd = b1.clone().down();
                let mut acc = Self::empty(self.dim);
                for g in &self.dbms {
                    let g1 = Self::of(self.dim, vec![g.clone()]);
                    let free = g1.clone().down().subtraction(&bd);
                    let before = g1.intersection(&bd).subtraction(&b1).down();
                    acc = acc.union(&free).union(&before.subtraction(&b1));
                }
                res = res.intersection(&acc);
            }
            res
        }
        pub fn free_clock(self, c: ClockIndex) -> Self {
            self.per(|mut d| {
                d.free(c);
                d.close();
                Some(d)
            })
        }
        pub fn update_clock_val(self, c: ClockIndex, val: i32) -> Self {
            self.free_clock(c).constrain_eq(c, val)
        }
        pub fn update_clock_clock(self, c: ClockIndex, o: ClockIndex) -> Self {
            if c == o {
                return self;
            }
            self.free_clock(c)
                .constrain(c, o, Inequality::LE(0))
                .constrain(o, c, Inequality::LE(0))
        }
        pub fn extrapolate_max_bounds(self, b: &Bounds) -> Self {
            assert_eq!(self.dim, b.dim(), "bounds dimension");
            let n = self.dim;
            let max = |i: usize| -> Option<i64> {
                match (b.get_lower(i), b.get_upper(i)) {
                    (None, None) => None,
                    (a, c) => Some(a.unwrap_or(i32::MIN).max(c.unwrap_or(i32::MIN)) as i64),
                }
            };
            self.per(|mut d| {
                for i in 0..n {
                    for j in 0..n {
                        if i == j {
                            continue;
                        }
                        let v = d.at(i, j);
                        if v == INF {
                            continue;
                        }
                        if i != 0 && max(i).map_or(true, |m| (v >> 1) > m) {
                            d.set(i, j, INF);
                        } else if j != 0 {
                            match max(j) {
                                None => {
                                    let k = if i == 0 { LE0 } else { INF };
                                    d.set(i, j, k)
                                }
                                Some(m) if (v >> 1) < -m => d.set(i, j, (-m) << 1),
                                _ => {}
                            }
                        }
                    }
                }
                d.close();
                Some(d)
            })
        }
        pub fn can_delay_indefinitely(&self) -> bool {
            self.dbms.iter().any(|d| (1..d.dim).all(|i| d.at(i, 0) == INF))
        }
        pub fn minimal_constraints(&self) -> Disjunction {
            Disjunction::new(
                self.dbms
                    .iter()
                    .map(|d| {
                        let n = d.dim;
                        let mut cur = Dbm::universe(n);
                        let mut cs = vec![];
                        let mut order = vec![];
                        for i in 0..n {
                            for j in 0..n {
                                if i != j && d.at(i, j) != INF && !(i == 0 && d.at(i, j) == LE0) {
                                    order.push((usize::from(i != 0 && j != 0), i, j));
                                }
                            }
                        }
                        order.sort();
                        for (_, i, j) in order {
                            if d.at(i, j) < cur.at(i, j) {
                                cur = cur.constrain(i, j, d.at(i, j)).expect("nonempty");
                                cs.push(Constraint::new(i, j, RawInequality(d.at(i, j))));
                            }
                        }
                        Conjunction::new(cs)
                    })
                    .collect(),
            )
        }
        pub fn get_bounds(&self) -> Bounds {
            let mut b = Bounds::new(self.dim);
            for d in &self.dbms {
                for i in 0..d.dim {
                    for j in 0..d.dim {
                        let v = d.at(i, j);
                        if i == j || v == INF || (i == 0 && v == LE0) {
                            continue;
                        }
                        let c = (v >> 1) as i32;
                        b.add_upper(i, c);
                        b.add_lower(j, -c);
                    }
                }
            }
            b
        }
        pub fn reduce(self, _expensive: bool) -> Self {
            Self::of(self.dim, self.dbms)
        }
        pub fn expensive_reduce(self) -> Self {
            let mut keep = self.dbms;
            let mut i = 0;
            while i < keep.len() {
                let d = Self::of(self.dim, vec![keep[i].clone()]);
                let mut others = keep.clone();
                others.remove(i);
                if d.subset_eq(&Self::of(self.dim, others)) {
                    keep.remove(i);
                } else {
                    i += 1;
                }
            }
            Self::of(self.dim, keep)
        }
    }
    impl ops::Add for OwnedFederation {
        type Output = OwnedFederation;
        fn add(self, o: Self) -> Self {
            self.union(&o)
        }
    }
    impl ops::AddAssign for OwnedFederation {
        fn add_assign(&mut self, o: Self) {
            *self = self.clone().union(&o);
        }
    }
    impl ops::Sub for OwnedFederation {
        type Output = OwnedFederation;
        fn sub(self, o: Self) -> Self {
            self.subtraction(&o)
        }
    }
    impl ops::SubAssign for OwnedFederation {
        fn sub_assign(&mut self, o: Self) {
            *self = self.clone().subtraction(&o);
        }
    }
    impl ops::BitAnd for OwnedFederation {
        type Output = OwnedFederation;
        fn bitand(self, o: Self) -> Self {
            self.intersection(&o)
        }
    }
    impl ops::Not for OwnedFederation {
        type Output = OwnedFederation;
        fn not(self) -> Self {
            self.inverse()
        }
    }
}
