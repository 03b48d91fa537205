//! Reference models, written from the definitions (the Framework, the documentation) over plain
//! integers.  Nothing in here calls bellframe.

/// The names of bells, in order
pub const NAMES: &str = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";

pub fn bell_of_char(c: char) -> Option<usize> {
    NAMES.chars().position(|x| x == c)
}

pub fn bell_name(b: usize) -> String {
    NAMES.chars().nth(b).map_or_else(|| format!("<{}>", b + 1), |c| c.to_string())
}

pub const STAGE_NAMES: [&str; 22] = [
    "One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques",
    "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty",
    "Decuples", "Twenty-two",
];

pub fn stage_display(n: usize) -> String {
    STAGE_NAMES.get(n - 1).map_or_else(|| format!("{} bells", n), |s| s.to_string())
}

/* ===== PERMUTATIONS ===== */

pub type P = Vec<usize>;

pub fn is_perm(p: &[usize]) -> bool {
    let mut seen = vec![false; p.len()];
    for &x in p {
        if x >= p.len() || seen[x] {
            return false;
        }
        seen[x] = true;
    }
    !p.is_empty()
}

pub fn id(n: usize) -> P {
    (0..n).collect()
}

/// `a * b`: b permutes a
pub fn mul(a: &[usize], b: &[usize]) -> P {
    assert_eq!(a.len(), b.len());
    b.iter().map(|&x| a[x]).collect()
}

pub fn inv(a: &[usize]) -> P {
    let mut r = vec![usize::MAX; a.len()];
    for (i, &x) in a.iter().enumerate() {
        r[x] = i;
    }
    r
}

pub fn cycles(a: &[usize]) -> Vec<Vec<usize>> {
    let mut seen = vec![false; a.len()];
    let mut out = vec![];
    for s in 0..a.len() {
        let mut cyc = vec![];
        let mut x = s;
        while !seen[x] {
            seen[x] = true;
            cyc.push(x);
            x = a[x];
        }
        if !cyc.is_empty() {
            out.push(cyc);
        }
    }
    out
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn order(a: &[usize]) -> u128 {
    cycles(a).iter().fold(1, |acc, c| acc / gcd(acc, c.len() as u128) * c.len() as u128)
}

/// `a^e` by rotating each cycle (so independent of repeated multiplication)
pub fn pow(a: &[usize], e: i128) -> P {
    let mut r = vec![0; a.len()];
    for c in cycles(a) {
        let k = c.len() as i128;
        for (i, &x) in c.iter().enumerate() {
            r[x] = c[(i as i128 + e).rem_euclid(k) as usize];
        }
    }
    r
}

/// True if the permutation is odd (by counting inversions)
pub fn is_odd(a: &[usize]) -> bool {
    let mut n = 0u64;
    for i in 0..a.len() {
        for j in i + 1..a.len() {
            if a[i] > a[j] {
                n += 1;
            }
        }
    }
    n % 2 == 1
}

/// All permutations of `0..n`, in lexicographic order
pub fn all_perms(n: usize) -> Vec<P> {
    let mut out = vec![];
    let mut p = id(n);
    loop {
        out.push(p.clone());
        // next permutation
        let Some(i) = (0..n.saturating_sub(1)).rev().find(|&i| p[i] < p[i + 1]) else {
            return out;
        };
        let j = (i + 1..n).rev().find(|&j| p[j] > p[i]).unwrap();
        p.swap(i, j);
        p[i + 1..].reverse();
    }
}

pub fn factorial(n: usize) -> u128 {
    (1..=n as u128).product()
}

/// The `k`th permutation of `0..n` (in lexicographic order)
pub fn nth_perm(n: usize, mut k: u64) -> P {
    let mut pool = id(n);
    let mut out = vec![];
    for i in (0..n).rev() {
        let f = factorial(i) as u64;
        out.push(pool.remove((k / f) as usize % (i + 1)));
        k %= f;
    }
    out
}

/* ===== ROW PARSING ===== */

#[derive(Debug, Clone, PartialEq)]
pub enum RowFault {
    NoBells,
    Dup(usize),
    Out(usize, usize),
    Missing(usize),
}

pub fn chars_to_bells(s: &str) -> Vec<usize> {
    s.chars().filter_map(bell_of_char).collect()
}

/* ===== PLACE NOTATION ===== */

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PnFault {
    None,
    Out(usize),
    Ambiguous(usize, usize),
    Dup(usize),
    OddCross,
}

/// Every fault that a list of places has.  Empty means that the notation is valid.
pub fn pn_faults(places: &[usize], n: usize) -> Vec<PnFault> {
    let mut ps = places.to_vec();
    ps.sort();
    let mut f = vec![];
    if ps.is_empty() {
        return vec![PnFault::None];
    }
    for w in ps.windows(2) {
        if w[0] == w[1] {
            f.push(PnFault::Dup(w[0]));
        } else {
            let gap = w[1] - w[0] - 1;
            if gap > 1 && gap % 2 == 1 {
                f.push(PnFault::Ambiguous(w[0], w[1]));
            }
        }
    }
    for &p in &ps {
        if p >= n {
            f.push(PnFault::Out(p));
        }
    }
    f
}

/// The full list of places made (with implicit places added), given a valid notation
pub fn pn_fill(places: &[usize], n: usize) -> Vec<usize> {
    let mut made = vec![false; n];
    for &p in places {
        made[p] = true;
    }
    let explicit: Vec<usize> = (0..n).filter(|&p| made[p]).collect();
    // The bells below the first place, above the last place and between pairs of places have to be
    // swapped in pairs
    if let Some(&f) = explicit.first() {
        if f % 2 == 1 {
            made[0] = true;
        }
        let l = *explicit.last().unwrap();
        if (n - 1 - l) % 2 == 1 {
            made[n - 1] = true;
        }
        for w in explicit.windows(2) {
            if w[1] - w[0] == 2 {
                made[w[0] + 1] = true;
            }
        }
    }
    (0..n).filter(|&p| made[p]).collect()
}

/// The permutation caused by a full list of places
pub fn pn_perm(full: &[usize], n: usize) -> P {
    let mut p = id(n);
    let mut i = 0;
    while i < n {
        if full.contains(&i) {
            i += 1;
        } else {
            p.swap(i, i + 1);
            i += 2;
        }
    }
    p
}

/// The places of the single change between two rows (None if there isn't one)
pub fn pn_between(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    if a.len() != b.len() {
        return None;
    }
    let places: Vec<usize> = (0..a.len()).filter(|&i| a[i] == b[i]).collect();
    (mul(a, &match try_pn_perm(&places, a.len()) {
        Some(p) => p,
        None => return None,
    }) == b)
        .then_some(places)
}

fn try_pn_perm(full: &[usize], n: usize) -> Option<P> {
    let mut p = id(n);
    let mut i = 0;
    while i < n {
        if full.contains(&i) {
            i += 1;
        } else if i + 1 < n && !full.contains(&(i + 1)) {
            p.swap(i, i + 1);
            i += 2;
        } else {
            return None;
        }
    }
    Some(p)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum BlockFault {
    /// Byte index of the '+'
    Plus(usize),
    /// Byte index of the first char of the piece, byte index just after its last place, the byte
    /// index where the piece is ended (a delimiter, or the end of the block), and its faults
    Pn(usize, usize, usize, Vec<PnFault>),
    Empty,
}

/// Parse a block of place notation.  Returns the fully expanded list of places, or every fault
pub fn parse_block(s: &str, n: usize) -> Result<Vec<Vec<usize>>, Vec<BlockFault>> {
    let mut faults = vec![];
    let is_single = !s.contains(',');
    let mut out: Vec<Vec<usize>> = vec![];
    let mut offset = 0;
    for part in s.split(',') {
        let mut pns: Vec<Vec<usize>> = vec![];
        let mut asym = false;
        // Whether or not anything meaningful has been seen in this block
        let mut started = false;
        let mut piece: Vec<usize> = vec![];
        let (mut piece_start, mut piece_end) = (0, 0);
        let chars: Vec<(usize, char)> = part.char_indices().map(|(i, c)| (i + offset, c)).collect();
        let end = offset + part.len();
        for (i, c) in chars.into_iter().chain(std::iter::once((end, '.'))) {
            if let Some(b) = bell_of_char(c) {
                if piece.is_empty() {
                    piece_start = i;
                }
                piece.push(b);
                piece_end = i + c.len_utf8();
                started = true;
                continue;
            }
            let cross = matches!(c, 'x' | 'X' | '-');
            if cross || matches!(c, ' ' | '.') {
                if !piece.is_empty() {
                    let f = pn_faults(&piece, n);
                    if f.is_empty() {
                        pns.push(pn_fill(&piece, n));
                    } else {
                        faults.push(BlockFault::Pn(piece_start, piece_end, i, f));
                    }
                    piece.clear();
                }
                if cross {
                    started = true;
                    if n % 2 == 1 {
                        faults.push(BlockFault::Pn(i, i + 1, i + 1, vec![PnFault::OddCross]));
                    }
                    pns.push(vec![]);
                }
            } else if c == '+' {
                if started || asym {
                    faults.push(BlockFault::Plus(i));
                }
                asym = true;
            }
            // Anything else is ignored
        }
        let len = pns.len();
        out.extend(pns.iter().cloned());
        if !(is_single || asym) {
            out.extend(pns.iter().take(len.saturating_sub(1)).rev().cloned());
        }
        offset = end + 1;
    }
    if !faults.is_empty() {
        Err(faults)
    } else if out.is_empty() {
        Err(vec![BlockFault::Empty])
    } else {
        Ok(out)
    }
}

/* ===== MASKS & REGEXES ===== */

pub type M = Vec<Option<usize>>;

pub fn mask_matches(m: &M, r: &[usize]) -> bool {
    m.len() == r.len() && m.iter().zip(r).all(|(a, b)| a.map_or(true, |a| a == *b))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum E {
    B(usize),
    Any,
    Glob,
}

/// Match un-normalised elements by dynamic programming
pub fn regex_matches(elems: &[E], r: &[usize]) -> bool {
    let n = r.len();
    // reach[i]: the elements so far can match exactly r[..i]
    let mut reach = vec![false; n + 1];
    reach[0] = true;
    for e in elems {
        let mut next = vec![false; n + 1];
        match e {
            E::B(b) => {
                for i in 0..n {
                    next[i + 1] = reach[i] && r[i] == *b;
                }
            }
            E::Any => next[1..].copy_from_slice(&reach[..n]),
            E::Glob => {
                let mut any = false;
                for i in 0..=n {
                    any |= reach[i];
                    next[i] = any;
                }
            }
        }
        reach = next;
    }
    reach[n]
}

/// The canonical form: in each maximal group of consecutive wildcards, the 'any's come first,
/// followed by at most one glob
pub fn regex_normal(elems: &[E]) -> Vec<E> {
    let mut out = vec![];
    let (mut anys, mut glob) = (0, false);
    for e in elems.iter().chain(std::iter::once(&E::B(usize::MAX))) {
        match e {
            E::Any => anys += 1,
            E::Glob => glob = true,
            E::B(b) => {
                out.extend(std::iter::repeat(E::Any).take(anys));
                if glob {
                    out.push(E::Glob);
                }
                anys = 0;
                glob = false;
                if *b != usize::MAX {
                    out.push(E::B(*b));
                }
            }
        }
    }
    out
}

/// Length of the run (consecutive bells, each differing by one) at the start of a slice.
pub fn run_len(r: &[usize]) -> usize {
    let mut n = 1;
    while n < r.len() && r[n].abs_diff(r[n - 1]) == 1 {
        n += 1;
    }
    n
}

/* ===== LEVENSHTEIN ===== */

pub fn levenshtein(a: &str, b: &str) -> usize {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let mut t = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            t[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                let sub = t[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize;
                sub.min(t[i - 1][j] + 1).min(t[i][j - 1] + 1)
            };
        }
    }
    t[a.len()][b.len()]
}

/* ===== CLASSIFICATION ===== */

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Plain,
    TrebleDodging,
    TreblePlace,
    Alliance,
    Hybrid,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Class {
    pub little: bool,
    pub differential: bool,
    pub name: &'static str,
}

/// Whether a cyclic sequence is the same as its reverse, up to rotation
fn palindromic(path: &[usize]) -> bool {
    let n = path.len();
    // An axis of symmetry `s`: path[i] == path[s - i] for all i
    (0..n).any(|s| (0..n).all(|i| path[i] == path[(s + n - i) % n]))
}

/// The type of a hunt bell's path, from the Framework's definitions
fn hunt_kind(path: &[usize], n: usize) -> (bool, Kind) {
    let mut rows_in = vec![0usize; n];
    for &p in path {
        rows_in[p] += 1;
    }
    let little = rows_in.iter().any(|&c| c == 0);
    let visited: Vec<usize> = rows_in.iter().copied().filter(|&c| c > 0).collect();
    if visited.len() == 1 {
        return (little, Kind::TreblePlace);
    }
    if visited.iter().all(|&c| c == 2) {
        return (little, Kind::Plain);
    }
    let len = path.len();
    let places_made = (0..len).filter(|&i| path[i] == path[(i + 1) % len]).count();
    let even = visited.iter().all(|&c| c == visited[0]);
    let kind = if !palindromic(path) {
        Kind::Hybrid
    } else if !even {
        Kind::Alliance
    } else if places_made > 2 {
        Kind::TreblePlace
    } else if places_made == 2 {
        Kind::TrebleDodging
    } else {
        Kind::Hybrid
    };
    (little, kind)
}

/// Classify a method given the changes (lists of full places) of its first lead
pub fn classify(changes: &[Vec<usize>], n: usize) -> Class {
    let mut rows = vec![id(n)];
    for c in changes {
        let last = rows.last().unwrap().clone();
        rows.push(mul(&last, &pn_perm(c, n)));
    }
    let lead_head = rows.last().unwrap().clone();
    let path = |b: usize| -> Vec<usize> {
        rows[..changes.len()].iter().map(|r| r.iter().position(|&x| x == b).unwrap()).collect()
    };
    let after = |b: usize| lead_head.iter().position(|&x| x == b).unwrap();

    // The cycles of place bells
    let mut cycles: Vec<Vec<usize>> = vec![];
    let mut seen = vec![false; n];
    for b in 0..n {
        let mut c = vec![];
        let mut x = b;
        while !seen[x] {
            seen[x] = true;
            c.push(x);
            x = after(x);
        }
        if !c.is_empty() {
            cycles.push(c);
        }
    }
    let hunts: Vec<usize> = cycles.iter().filter(|c| c.len() == 1).map(|c| c[0]).collect();
    let workers: Vec<&Vec<usize>> = cycles.iter().filter(|c| c.len() > 1).collect();
    let differential = workers.iter().any(|c| c.len() != workers[0].len());
    if hunts.is_empty() {
        return Class { little: false, differential, name: "Principle" };
    }

    let kinds: Vec<(usize, bool, Kind)> = hunts
        .iter()
        .map(|&b| {
            let (l, k) = hunt_kind(&path(b), n);
            (b, l, k)
        })
        .collect();
    let best = kinds.iter().map(|k| k.2).min().unwrap();
    let dominant: Vec<usize> = kinds.iter().filter(|k| k.2 == best).map(|k| k.0).collect();
    let little = kinds.iter().filter(|k| k.2 == best).all(|k| k.1);
    let name = match best {
        Kind::TreblePlace => "Treble Place",
        Kind::Alliance => "Alliance",
        Kind::Hybrid => "Hybrid",
        Kind::Plain => {
            // Follow every place bell cycle except the dominant hunt bells, looking for a dodge,
            // i.e. a bell moving x -> y -> x with |x - y| = 1
            let dodge = cycles
                .iter()
                .filter(|c| !(c.len() == 1 && dominant.contains(&c[0])))
                .any(|c| {
                    let full: Vec<usize> = c.iter().flat_map(|&b| path(b)).collect();
                    let l = full.len();
                    (0..l).any(|i| {
                        let (x, y, z) = (full[i], full[(i + 1) % l], full[(i + 2) % l]);
                        x == z && x.abs_diff(y) == 1
                    })
                });
            if dodge {
                "Bob"
            } else {
                "Place"
            }
        }
        Kind::TrebleDodging => {
            // The changes at which a dominant hunt bell passes from one dodging position to another
            let l = changes.len();
            let mut internal = vec![];
            for i in 0..l {
                let passes = dominant.iter().any(|&b| {
                    let p = path(b);
                    let lo = *p.iter().min().unwrap();
                    (p[i] - lo) / 2 != (p[(i + 1) % l] - lo) / 2
                });
                if passes {
                    internal.push(changes[i].iter().any(|&x| x != 0 && x != n - 1));
                }
            }
            if internal.iter().all(|&x| !x) {
                "Treble Bob"
            } else if internal.iter().all(|&x| x) {
                "Surprise"
            } else {
                "Delight"
            }
        }
    };
    Class { little, differential, name }
}

/// The standard title of a method
pub fn title(name: &str, c: &Class, jump: bool, stage: usize) -> String {
    let mut parts: Vec<String> = vec![];
    if !name.is_empty() {
        parts.push(name.to_owned());
    }
    if jump {
        parts.push("Jump".to_owned());
    }
    if c.differential {
        parts.push("Differential".to_owned());
    }
    if c.name != "Principle" && c.name != "Hybrid" {
        if c.little {
            parts.push("Little".to_owned());
        }
        parts.push(c.name.to_owned());
    }
    parts.push(stage_display(stage));
    parts.join(" ")
}

/// The full name of a class
pub fn class_display(c: &Class, jump: bool) -> String {
    let mut parts: Vec<&str> = vec![];
    if jump {
        parts.push("Jump");
    }
    if c.differential {
        parts.push("Differential");
    }
    if c.little {
        parts.push("Little");
    }
    parts.push(c.name);
    parts.join(" ")
}
