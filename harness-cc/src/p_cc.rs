//! C24: fetching & caching of the Central Council's library.  C25: importing it from XML.

use std::{
    fs,
    path::{Path, PathBuf},
    sync::{atomic::Ordering, OnceLock},
    time::{Duration, SystemTime, UNIX_EPOCH},
};

use bellframe::{parse_cc_lib, MethodLib};

use crate::{
    ctx::{exhaustive, guard, random, Case, Probe, R},
    ensure, eq,
    model,
    p_lib::{self, entries, from_json, lookup, to_json, vary_case, Entry},
    rng::{hash_str, mix, Rng},
    web::{self, Mode, CONNECTIONS, RESPONSES},
};

/* ===== C24 ===== */

pub const C24: &[Probe] = &[
    random("histories", 250, histories),
    exhaustive("every-truncation-of-a-cache", 1, 1, truncations),
    random("every-truncation-of-random-caches", 6, |c| {
        let r = &mut c.rng.clone();
        let e = entries(r, 2);
        let json = to_json(r, &e);
        cut_everywhere(c, &json)
    }),
    exhaustive("every-truncation-of-a-download", 1, 1, downloads),
    random("no-cache-directory", 10, no_directory),
    random("large-libraries", 4, large),
    random("loads-at-once", 40, at_once),
    exhaustive("every-flipped-bit-of-a-cache", 1, 1, flips),
    exhaustive("every-byte-added-before-or-after", 1, 1, padded),
    exhaustive("every-flipped-bit-of-a-download", 1, 1, |c| {
        for i in 0..SMALL.len() * 8 {
            load(c, Cache::Missing, &Mode::Body(200, flipped(SMALL, i)))?;
            c.count("flipped bits of downloads");
            c.sig(mix(i as u64));
        }
        Ok(())
    }),
];

/// A library with every byte (once or a few times) before or after it
fn padded(c: &mut Case) -> R {
    for b in 0..=255u8 {
        for (before, after) in [(0, 1), (1, 0), (0, 3), (2, 2)] {
            let mut v = vec![b; before];
            v.extend(SMALL.as_bytes());
            v.extend(std::iter::repeat(b).take(after));
            let cache = match library_in(&v) {
                Some(s) => Cache::Good(s),
                None => Cache::Bad(v.clone()),
            };
            c.count(if matches!(cache, Cache::Good(_)) { "padded libraries which still are libraries" } else { "padded libraries which aren't libraries" });
            load(c, cache, &Mode::Offline)?;
            if after < 3 {
                load(c, Cache::Missing, &Mode::Body(200, v))?;
            }
            c.sig(mix(b as u64) ^ (before * 4 + after) as u64);
        }
    }
    Ok(())
}

fn flipped(json: &str, i: usize) -> Vec<u8> {
    let mut v = json.as_bytes().to_vec();
    v[i / 8] ^= 1 << (i % 8);
    v
}

fn flips(c: &mut Case) -> R {
    for json in [SMALL, r#"{"groups":[{"s":6,"l":true,"c":2,"m":[{"n":"","p":"x16x14,12"},{"t":"É!","n":"Ω","p":"16"}]}]}"#] {
        for i in 0..json.len() * 8 {
            let v = flipped(json, i);
            let cache = match library_in(&v) {
                Some(s) => Cache::Good(s),
                None => Cache::Bad(v),
            };
            load(c, cache, &Mode::Offline)?;
            c.count("flipped bits of caches");
            c.sig(mix(hash_str(json)) ^ i as u64);
        }
    }
    Ok(())
}

const SMALL: &str = r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x16x16x16,12"}]}]}"#;

fn lib_files(dir: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let Ok(d) = fs::read_dir(dir) else { return out };
    for e in d.flatten() {
        if e.path().is_dir() {
            out.extend(lib_files(&e.path()));
        } else {
            out.push(e.path());
        }
    }
    out.sort();
    out
}

fn home_files() -> Vec<PathBuf> {
    let mut v = lib_files(&web::scratch().join("cache"));
    v.extend(lib_files(&web::scratch().join("home")));
    v
}

/// Where the library is cached: found by letting it be downloaded once
fn cache_path() -> Result<&'static PathBuf, String> {
    static PATH: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    PATH.get_or_init(|| {
        ensure!(home_files().is_empty(), "the scratch directory isn't empty: {:?}", home_files());
        web::set(Mode::Body(200, SMALL.as_bytes().to_vec()));
        let lib = MethodLib::cc_lib().ok_or("a good download was rejected")?;
        check_lib(&lib, SMALL)?;
        let files = home_files();
        ensure!(files.len() == 1, "a good download wasn't cached: files {:?}", files);
        ensure!(fs::read(&files[0]).unwrap() == SMALL.as_bytes(), "the download was cached as {:?}", fs::read(&files[0]));
        Ok(files[0].clone())
    })
    .as_ref()
    .map_err(|e| e.clone())
}

fn check_lib(lib: &MethodLib, json: &str) -> R {
    let json2 = lib.to_json().map_err(|e| format!("to_json: {}", e))?;
    let (got, exp) = (from_json(&json2)?, from_json(json)?);
    // If a title is there more than once, it's not said which of its methods is kept
    let key = |e: &Entry| (e.stage, e.title.to_lowercase());
    let keys: std::collections::BTreeSet<_> = exp.iter().map(key).collect();
    if keys.len() < exp.len() {
        let got_keys: std::collections::BTreeSet<_> = got.iter().map(key).collect();
        ensure!(got_keys == keys && got.len() == keys.len() && got.iter().all(|e| exp.contains(e)), "the library has {:?}, expected each title of {:?}", got, exp);
        return Ok(());
    }
    ensure!(got == exp, "the library has {:?}, expected {:?}", got, exp);
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
enum Cache {
    Missing,
    Good(String),
    Bad(Vec<u8>),
}

/// Something which isn't a library
fn bad(r: &mut Rng, good: &str) -> Vec<u8> {
    match r.below(8) {
        6 => {
            // Two libraries, or one and something else
            let rubbish = [good, "\0", "\0\0\0\0", " \n\0", "x", ";", "null", "// end", "\u{feff}", "\u{a0}", "{", "[]", "\x1a"];
            let (mut a, mut b) = (good.to_owned(), (*r.pick(&rubbish)).to_owned());
            if r.bool() {
                std::mem::swap(&mut a, &mut b);
            }
            format!("{}{}{}", a, *r.pick(&["", "", "\n", ","]), b).into_bytes()
        }
        0 => good.as_bytes()[..r.below(good.len())].to_vec(),
        1 => vec![],
        2 => b"404: Not Found".to_vec(),
        3 => b"<html></html>".to_vec(),
        4 => format!("{}}}", good).into_bytes(),
        5 => {
            // Overwritten partially by something longer or shorter, or with zeroes (as after a crash)
            let mut v = good.as_bytes().to_vec();
            let k = r.below(v.len());
            for b in &mut v[k..] {
                *b = 0;
            }
            v
        }
        _ => {
            let mut v = good.as_bytes().to_vec();
            v.truncate(good.len() / 2);
            v.push(0xff);
            v.extend(good.as_bytes());
            v
        }
    }
}

/// The library a file or a download holds, if it does
fn library_in(bytes: &[u8]) -> Option<String> {
    String::from_utf8(bytes.to_vec()).ok().filter(|s| MethodLib::from_json(s).is_ok())
}

/// A library with a few bytes wrong: often it still is JSON, or even a library
fn corrupt(r: &mut Rng, good: &str) -> Vec<u8> {
    let mut v = good.as_bytes().to_vec();
    for _ in 0..r.range(1, 3) {
        let at = r.below(v.len());
        // Some of the time within a name
        let inside: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_lowercase() || v[*i] >= 0x80).collect();
        let at = if r.bool() && !inside.is_empty() { *r.pick(&inside) } else { at };
        match r.below(6) {
            0 | 1 => v[at] ^= 0x80,
            2 => v[at] ^= 1 << r.below(8),
            3 => v[at] = r.below(256) as u8,
            4 if v.len() > 1 => {
                v.remove(at);
            }
            _ => v.insert(at, *r.pick(&[0, 0x80, 0xff, 0xc3, b' ', b'\n', b'"', b',', b'}'])),
        }
    }
    if r.chance(1, 12) {
        // A byte order mark
        v.splice(0..0, [0xef, 0xbb, 0xbf]);
    }
    v
}

fn corrupt_cache(r: &mut Rng, good: &str) -> Cache {
    let v = corrupt(r, good);
    match library_in(&v) {
        Some(s) => Cache::Good(s),
        None => Cache::Bad(v),
    }
}

fn set_cache(r: &mut Rng, c: &Cache) -> R {
    let p = cache_path()?;
    // Replace the file, unless it's as it was left
    let bytes = match c {
        Cache::Missing => {
            let _ = fs::remove_file(p);
            return Ok(());
        }
        Cache::Good(s) => s.as_bytes(),
        Cache::Bad(v) => v.as_slice(),
    };
    if fs::read(p).ok().as_deref() != Some(bytes) || r.chance(1, 4) {
        let _ = fs::remove_file(p);
        fs::write(p, bytes).map_err(|e| e.to_string())?;
    }
    // What the file holds matters, not how old it is (or who may write to it)
    let day = 24 * 60 * 60;
    let now = SystemTime::now();
    let age = match r.below(8) {
        0 => UNIX_EPOCH,
        1 => UNIX_EPOCH + Duration::from_secs(r.below(2_000_000_000) as u64),
        2 => now + Duration::from_secs(day * r.range(1, 10_000) as u64),
        3 => now - Duration::from_secs(day * r.range(1, 60) as u64),
        4 => now - Duration::from_secs(day * r.range(1, 5_000) as u64),
        _ => return Ok(()),
    };
    let f = fs::OpenOptions::new().write(true).open(p).map_err(|e| e.to_string())?;
    f.set_modified(age).map_err(|e| e.to_string())?;
    Ok(())
}

fn check_cache(c: &Cache, what: &str) -> R {
    let p = cache_path()?;
    let got = fs::read(p).ok();
    let exp = match c {
        Cache::Missing => None,
        Cache::Good(s) => Some(s.as_bytes().to_vec()),
        Cache::Bad(v) => Some(v.clone()),
    };
    ensure!(got == exp, "{}: the cache file holds {:?}, expected {:?}", what, got.map(|v| String::from_utf8_lossy(&v).into_owned()), exp.map(|v| String::from_utf8_lossy(&v).into_owned()));
    let files = home_files();
    ensure!(files.iter().all(|f| f == p), "{}: unexpected files {:?}", what, files);
    Ok(())
}

/// Load the library in a known state of the cache & web, and compare it with the model.  Returns the
/// new state of the cache.
fn load(c: &mut Case, cache: Cache, web: &Mode) -> Result<Cache, String> {
    let what = format!("cache {:?}, web {:?}", cache, web);
    let what: String = what.chars().take(1500).collect();
    set_cache(&mut Rng::new(c.rng.u64()), &cache)?;
    web::set(web.clone());
    let before = CONNECTIONS.load(Ordering::SeqCst);
    let served = RESPONSES.load(Ordering::SeqCst);
    let lib = guard(MethodLib::cc_lib).map_err(|e| format!("{}: panicked: {}", what, e))?;
    let asked = CONNECTIONS.load(Ordering::SeqCst) - before;
    if RESPONSES.load(Ordering::SeqCst) > served {
        c.count("responses served");
    }
    let download = match web {
        Mode::Body(200, b) | Mode::Chunked(b) => library_in(b),
        _ => None,
    };
    let (exp, after) = match (&cache, download) {
        (Cache::Good(s), _) => {
            eq!(asked, 0, "{}: number of connections to the web although the cache is good", what);
            c.count("loaded from the cache");
            (Some(s.clone()), cache.clone())
        }
        (_, Some(s)) => {
            ensure!(asked > 0, "{}: the web wasn't asked", what);
            c.count("downloaded & cached");
            (Some(s.clone()), Cache::Good(s))
        }
        (_, None) => {
            ensure!(asked > 0, "{}: the web wasn't asked", what);
            c.count("nothing to load");
            (None, cache.clone())
        }
    };
    match (lib, exp) {
        (None, None) => {}
        (Some(l), Some(e)) => check_lib(&l, &e).map_err(|e| format!("{}: {}", what, e))?,
        (Some(l), None) => return Err(format!("{}: gave a library: {:?}", what, l)),
        (None, Some(_)) => return Err(format!("{}: no library was loaded", what)),
    }
    check_cache(&after, &what)?;
    Ok(after)
}

fn histories(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let mut cache = Cache::Missing;
    let mut trace = 0u64;
    for _ in 0..r.range(1, 6) {
        // Not only ASCII: sizes in bytes & chars differ
        let max = *r.pick(&[1, 3, 8]);
        let e = entries(r, max);
        let good = to_json(r, &e);
        match r.below(8) {
            0 => cache = Cache::Missing,
            3 | 4 => cache = corrupt_cache(r, &good),
            1 => cache = Cache::Good(good.clone()),
            2 => cache = Cache::Bad(bad(r, &good)),
            _ => {} // left over from the last load
        }
        let e2 = entries(r, max);
        let body = to_json(r, &e2).into_bytes();
        let web = match r.below(15) {
            10 => Mode::Body(200, corrupt(r, &good)),
            11 => Mode::Chunked(corrupt(r, &good)),
            0 | 1 => Mode::Offline,
            2 => Mode::Refused,
            3 => Mode::CloseAfterTls,
            4 => Mode::Garbage(bad(r, &good)),
            5 => Mode::Body(404, b"404: Not Found".to_vec()),
            6 => Mode::Body(200, bad(r, &good)),
            7 => Mode::Short(body[..r.below(body.len() + 1)].to_vec(), r.range(1, 50)),
            8 => Mode::ChunkedCut(body[..r.below(body.len() + 1)].to_vec()),
            9 => Mode::Chunked(body),
            _ => Mode::Body(200, body),
        };
        c.log(|| format!("cache {:?}, web {:?}", cache, web));
        trace = mix(trace ^ hash_str(&format!("{:?}{:?}", cache, web)));
        cache = load(c, cache, &web)?;
    }
    c.sig(trace);
    Ok(())
}

fn cut_everywhere(c: &mut Case, json: &str) -> R {
    c.log(|| format!("every truncation of {}", json));
    let json = json.trim_end();
    for i in 0..json.len() {
        load(c, Cache::Bad(json.as_bytes()[..i].to_vec()), &Mode::Offline)?;
        c.count("truncations");
        c.sig(mix(hash_str(json)) ^ i as u64);
    }
    load(c, Cache::Good(json.to_owned()), &Mode::Offline)?;
    Ok(())
}

fn truncations(c: &mut Case) -> R {
    cut_everywhere(c, r#"{"groups":[{"s":6,"l":true,"c":2,"m":[{"n":"","p":"x16x14,12"},{"t":"É!","n":"Ω","p":"16"}]}]}"#)
}

fn downloads(c: &mut Case) -> R {
    let json = SMALL;
    for i in 0..json.len() {
        let cut = json.as_bytes()[..i].to_vec();
        load(c, Cache::Missing, &Mode::Body(200, cut.clone()))?;
        load(c, Cache::Bad(b"{".to_vec()), &Mode::Short(cut.clone(), json.len() - i))?;
        load(c, Cache::Missing, &Mode::ChunkedCut(cut))?;
        c.count("truncated downloads");
        c.sig(i as u64);
    }
    // Even if everything arrived, apart from the end of the message
    load(c, Cache::Missing, &Mode::ChunkedCut(json.as_bytes().to_vec()))?;
    load(c, Cache::Missing, &Mode::Chunked(json.as_bytes().to_vec()))?;
    Ok(())
}

/// Several threads load at the same time.  Whoever finds a half written file has to ask the web.
fn at_once(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let p = cache_path()?;
    let max = *r.pick(&[1, 8, 200]);
    let e = entries(r, max);
    let good = to_json(r, &e);
    let e2 = entries(r, max);
    let other = to_json(r, &e2);
    let cache = match r.below(4) {
        0 => Cache::Missing,
        1 => Cache::Bad(bad(r, &other)),
        2 => corrupt_cache(r, &other),
        _ => Cache::Good(other),
    };
    let cache = match cache {
        Cache::Bad(v) if library_in(&v).is_some() => Cache::Good(library_in(&v).unwrap()),
        x => x,
    };
    let online = r.chance(2, 3);
    let web = if online { Mode::Body(200, good.clone().into_bytes()) } else { r.pick(&[Mode::Offline, Mode::Body(404, vec![]), Mode::Refused]).clone() };
    let n = r.range(2, 8);
    c.log(|| format!("{} loads at once, cache {:?}, web {:?}", n, cache, web));
    set_cache(&mut Rng::new(r.u64()), &cache)?;
    web::set(web);
    let before = CONNECTIONS.load(Ordering::SeqCst);
    let barrier = std::sync::Barrier::new(n);
    let pauses: Vec<u64> = (0..n).map(|_| if r.bool() { 0 } else { r.below(3_000) as u64 }).collect();
    let libs: Vec<Result<Option<MethodLib>, String>> = std::thread::scope(|s| {
        let threads: Vec<_> = pauses
            .iter()
            .map(|&us| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    std::thread::sleep(Duration::from_micros(us));
                    guard(MethodLib::cc_lib)
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("the thread panicked".to_owned()))).collect()
    });
    let asked = CONNECTIONS.load(Ordering::SeqCst) - before;
    let (exp, after) = match &cache {
        Cache::Good(s) => {
            eq!(asked, 0, "number of connections to the web although the cache is good");
            (Some(s.clone()), cache.clone())
        }
        _ if online => (Some(good.clone()), Cache::Good(good)),
        _ => (None, cache.clone()),
    };
    for (i, lib) in libs.into_iter().enumerate() {
        match (lib.map_err(|e| format!("load {} of {} at once panicked: {}", i, n, e))?, &exp) {
            (None, None) => {}
            (Some(l), Some(e)) => check_lib(&l, e).map_err(|e| format!("load {} of {} at once: {}", i, n, e))?,
            (Some(l), None) => return Err(format!("load {} of {} at once gave a library: {:?}", i, n, l)),
            (None, Some(_)) => return Err(format!("load {} of {} at once gave no library", i, n)),
        }
        c.count("loads at once");
    }
    if asked > 0 && (asked as usize) < n {
        c.count("rounds in which only some of the loads asked the web");
    }
    check_cache(&after, "after several loads at once")?;
    ensure!(p.exists() || after == Cache::Missing, "the cache file has gone");
    c.sig(mix(before) ^ n as u64 ^ hash_str(&format!("{:?}", cache)));
    Ok(())
}

/// Libraries of the size of the real one (and beyond)
fn large(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let mut list = entries(r, 20);
    let kind = r.below(4);
    let target = r.range(20_000, 70_000);
    let n = list.len();
    for i in 0.. {
        if list.len() >= target || n == 0 {
            break;
        }
        let mut e = list[i % n].clone();
        e.name = format!("{} {}", e.name, i);
        e.title = e.std_title();
        list.push(e);
    }
    let mut seen = std::collections::HashSet::new();
    list.retain(|e| seen.insert((e.stage, e.title.to_lowercase())));
    let json = to_json(r, &list);
    let body = json.clone().into_bytes();
    let after = match kind {
        0 => load(c, Cache::Missing, &Mode::Chunked(body))?,
        1 => load(c, Cache::Good(json), &Mode::Offline)?,
        2 => load(c, Cache::Bad(body[..body.len() / 2].to_vec()), &Mode::Body(200, body))?,
        _ => load(c, Cache::Missing, &Mode::Body(200, body))?,
    };
    c.count_n("methods in large libraries", list.len() as u64);
    c.sig(list.len() as u64);
    load(c, after, &Mode::Offline)?;
    Ok(())
}

/// If the cache can't be written, the library is still returned
fn no_directory(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let p = cache_path()?;
    set_cache(r, &Cache::Missing)?;
    if r.chance(1, 3) {
        return directory_in_the_way(c, r, p);
    }
    let dir = p.parent().ok_or("no parent")?;
    let aside = web::scratch().join("aside");
    fs::rename(dir, &aside).map_err(|e| e.to_string())?;
    let blocked = r.bool();
    if blocked {
        // ... because there's a file in the way
        fs::write(dir, "").map_err(|e| e.to_string())?;
    }
    let e = entries(r, 4);
    let json = to_json(r, &e);
    let online = r.chance(2, 3);
    web::set(if online { Mode::Body(200, json.clone().into_bytes()) } else { Mode::Offline });
    let lib = guard(MethodLib::cc_lib);
    // Put the directory back first
    if blocked {
        let _ = fs::remove_file(dir);
    } else {
        let _ = fs::remove_dir_all(dir);
    }
    fs::rename(&aside, dir).map_err(|e| e.to_string())?;
    let lib = lib.map_err(|e| format!("panicked without a cache directory: {}", e))?;
    match (lib, online) {
        (Some(l), true) => check_lib(&l, &json)?,
        (None, false) => {}
        (None, true) => return Err("the library wasn't returned when it couldn't be cached".to_owned()),
        (Some(_), false) => return Err("a library came from nowhere".to_owned()),
    }
    c.count("unwritable caches");
    c.sig(hash_str(&json) ^ (online as u64) << 1 ^ blocked as u64);
    Ok(())
}

/// If a directory is where the cache should be, it can be neither read nor written
fn directory_in_the_way(c: &mut Case, r: &mut Rng, p: &Path) -> R {
    fs::create_dir(p).map_err(|e| e.to_string())?;
    let full = r.bool();
    if full {
        fs::write(p.join("precious"), "x").map_err(|e| e.to_string())?;
    }
    let e = entries(r, 4);
    let json = to_json(r, &e);
    let online = r.chance(2, 3);
    web::set(if online { Mode::Body(200, json.clone().into_bytes()) } else { Mode::Offline });
    let lib = guard(MethodLib::cc_lib);
    let kept = p.is_dir() && (!full || fs::read(p.join("precious")).ok().as_deref() == Some(b"x"));
    if p.is_dir() {
        let _ = fs::remove_dir_all(p);
    } else {
        let _ = fs::remove_file(p);
    }
    let lib = lib.map_err(|e| format!("panicked with a directory instead of the cache file: {}", e))?;
    match (lib, online) {
        (Some(l), true) => check_lib(&l, &json)?,
        (None, false) => {}
        (None, true) => return Err("the library wasn't returned when a directory was in the way of its cache".to_owned()),
        (Some(_), false) => return Err("a library came from nowhere".to_owned()),
    }
    ensure!(kept || !full, "files in a directory in the way of the cache were deleted");
    c.count("unwritable caches");
    c.sig(hash_str(&json) ^ (online as u64) << 1 ^ 4 ^ (full as u64) << 3);
    Ok(())
}

/* ===== C25 ===== */

pub const C25: &[Probe] = &[random("xml-libraries", 4_000, xml)];

fn escape(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 8) && !s.contains("]]>") && !s.is_empty() {
        return format!("<![CDATA[{}]]>", s);
    }
    if r.chance(1, 6) && s.chars().count() > 1 && !s.contains("]]>") {
        // In several pieces
        let mut cuts: Vec<usize> = (0..r.range(1, 3)).map(|_| r.range(1, s.chars().count() - 1)).collect();
        cuts.push(0);
        cuts.push(s.chars().count());
        cuts.sort();
        let chars: Vec<char> = s.chars().collect();
        let cdata_first = r.bool();
        return cuts
            .windows(2)
            .enumerate()
            .map(|(i, w)| {
                let piece: String = chars[w[0]..w[1]].iter().collect();
                if (i % 2 == 0) == cdata_first { format!("<![CDATA[{}]]>", piece) } else { escape_chars(r, &piece) }
            })
            .collect();
    }
    escape_chars(r, s)
}

fn escape_chars(r: &mut Rng, s: &str) -> String {
    let mut out = String::new();
    let all = r.chance(1, 10);
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '"' if r.bool() => out.push_str("&quot;"),
            '\'' if r.bool() => out.push_str("&apos;"),
            c if (all && r.bool()) || r.chance(1, 60) => out.push_str(&format!("&#{};", c as u32)),
            c if !c.is_ascii() && r.chance(1, 4) => out.push_str(&format!("&#x{:X};", c as u32)),
            c => out.push(c),
        }
    }
    out
}

fn elem(r: &mut Rng, name: &str, s: &str) -> String {
    if s.is_empty() && r.bool() {
        format!("<{}/>", name)
    } else {
        format!("<{0}>{1}</{0}>", name, escape(r, s))
    }
}

/// Text which survives XML (no control chars, and no whitespace at either end)
fn plain(s: &str) -> bool {
    s.trim() == s && s.chars().all(|c| !c.is_control() && c != '\u{feff}' && c < '\u{fffe}') && !s.contains("  ")
}

fn xml(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let max = match r.below(40) {
        0 => 1000,
        _ => *r.pick(&[1, 4, 20]),
    };
    let mut list = entries(r, max);
    let mut seen = std::collections::BTreeSet::new();
    for e in &mut list {
        e.jump = false;
        if e.title == String::new() {
            e.title = e.std_title();
        }
    }
    list.retain(|e| plain(&e.name) && plain(&e.title) && plain(&e.pn) && seen.insert((e.stage, e.title.to_lowercase())));
    let json_like: Vec<&Entry> = list.iter().collect();
    // Group them into method sets
    let mut sets: std::collections::BTreeMap<(usize, bool, bool, usize, usize), Vec<&Entry>> = Default::default();
    for e in json_like {
        sets.entry((e.stage, e.little, e.diff, e.class, r.below(3) / 2)).or_default().push(e);
    }
    let mut sets: Vec<_> = sets.into_iter().collect();
    r.shuffle(&mut sets);
    let nl = *r.pick(&["", "\n", "\r\n  "]);
    let mut s = String::new();
    if r.bool() {
        s.push_str("<?xml version=\"1.0\"?>\n");
    }
    s.push_str(&format!(
        "<collection xmlns=\"http://www.cccbr.org.uk/methods/schemas/2007/05/methods\" xmlns:a=\"http://www.cccbr.org.uk/methods/schemas/2007/05/methods\" date=\"2021-{:02}-01\" uri=\"http://x/\">{}",
        r.range(1, 12),
        nl
    ));
    if r.bool() {
        s.push_str("<collectionName>All methods</collectionName>");
        s.push_str(nl);
    }
    for ((stage, little, diff, class, _), methods) in &sets {
        s.push_str("<methodSet>");
        s.push_str(nl);
        if r.bool() {
            s.push_str("<notes>Some notes</notes>");
        }
        s.push_str("<properties>");
        let class_name = match *class {
            0 => "",
            k => p_lib::CLASS_NAMES[k],
        };
        let mut attrs = String::new();
        if *little {
            attrs.push_str(" little=\"true\"");
        } else if r.chance(1, 4) {
            attrs.push_str(" little=\"false\"");
        }
        if (1..=2).contains(class) && r.bool() {
            attrs.push_str(" plain=\"true\"");
        }
        if (3..=5).contains(class) && r.bool() {
            attrs.push_str(" trebleDodging=\"true\"");
        }
        if *diff {
            attrs.push_str(" differential=\"true\"");
        } else if r.chance(1, 4) {
            attrs.push_str(" differential=\"false\"");
        }
        let class_elem = if class_name.is_empty() && r.bool() {
            format!("<classification{}/>", attrs)
        } else {
            format!("<classification{}>{}</classification>", attrs, escape(r, class_name))
        };
        let mut props = vec![elem(r, "stage", &stage.to_string()), class_elem];
        if r.bool() {
            props.push("<lengthOfLead>24</lengthOfLead>".to_owned());
            props.push("<numberOfHunts>1</numberOfHunts>".to_owned());
            props.push("<huntbellPath>1,2</huntbellPath>".to_owned());
            props.push("<other><stage>3</stage><classification little=\"true\">Bob</classification></other>".to_owned());
        }
        r.shuffle(&mut props);
        s.push_str(&props.join(nl));
        s.push_str("</properties>");
        s.push_str(nl);
        for e in methods {
            let mut parts = vec![elem(r, "title", &e.title), elem(r, "name", &e.name), elem(r, "notation", &e.pn)];
            if r.bool() {
                parts.push("<performances><firstTowerbellPeal><date>1731-01-01</date><location><town>A</town></location></firstTowerbellPeal></performances>".to_owned());
                parts.push("<leadHead>135264</leadHead>".to_owned());
                if r.bool() {
                    // Other things have titles & names, too
                    parts.push("<references><title>Not this</title><name>Nor this</name><notation>-</notation></references>".to_owned());
                }
                parts.push("<symmetry>palindromic</symmetry>".to_owned());
            }
            if r.chance(1, 5) {
                let t = *r.pick(&["title", "name", "notation"]);
                parts.push(format!("<z:{0} xmlns:z=\"http://example.org/\">Something else</z:{0}>", t));
            }
            r.shuffle(&mut parts);
            s.push_str(&format!("<method id=\"m{}\">{}{}</method>{}", r.below(9999), nl, parts.join(nl), nl));
        }
        s.push_str("</methodSet>");
        s.push_str(nl);
    }
    s.push_str("</collection>");
    c.log(|| s.clone());
    let lib = guard(|| parse_cc_lib(&s)).map_err(|e| format!("the import panicked: {} on {}", e, s))?;
    let mut sorted = list.clone();
    sorted.sort();
    let json = lib.to_json().map_err(|e| format!("to_json: {}", e))?;
    let got = from_json(&json)?;
    ensure!(got == sorted, "imported {:?}, expected {:?} from {}", got, sorted, s);
    let lib2 = MethodLib::from_json(&json).map_err(|e| format!("the imported library couldn't be saved & loaded: {}", e))?;
    for e in &list {
        let q = vary_case(r, &e.title);
        lookup(c, r, &lib, &list, &q)?;
        lookup(c, r, &lib2, &list, &q)?;
    }
    c.count_n("methods imported", list.len() as u64);
    if !list.is_empty() {
        c.sig(hash_str(&s));
    }
    let _ = model::NAMES;
    Ok(())
}
