//! KITTI readers, log-odds conversion and the noise model's parameters.
use crate::out::*;
use crate::Args;
use kuba::kitti::{oxt_reader, point_cloud_reader};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A scratch directory of our own that is removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("kuba-conf-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("script: scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Delivers its data in short reads, with an interruption now and then.
struct Chunks {
    data: Vec<u8>,
    at: usize,
    chunk: usize,
    calls: usize,
    fail_at: Option<usize>,
}
impl Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.fail_at.map_or(false, |f| self.at >= f) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        if self.calls % 5 == 3 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let n = buf.len().min(self.chunk).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn halves(x: f32) -> [i64; 2] {
    let b = x.to_bits() as i64;
    [b >> 16, b & 0xffff]
}

/// kcloud chunk fail trailing nwords words...: chunk 0 reads from a slice, -1 from a file, and with
/// more the input comes in short reads and fail >= 0 injects an I/O error after that many bytes.
fn kcloud(a: &mut Args) -> String {
    let (chunk, fail, tb) = (a.i(), a.i(), a.i());
    let n = a.i() as usize;
    let words = a.n(n);
    let mut bytes: Vec<u8> = vec![];
    for w in &words {
        bytes.extend_from_slice(&(*w as u32).to_ne_bytes());
    }
    for k in 0..tb {
        bytes.push(k as u8 + 1);
    }
    let w: Vec<Vec<i64>> = words.iter().map(|w| vec![w >> 16, w & 0xffff]).collect();
    let ev = Obj::new("kcloud").aa("w", &w).i("tb", tb).i("chunk", chunk);
    let ev = ev.i("fail", if chunk > 0 && fail >= 0 { 1 } else { 0 });
    let got = guard(|| {
        let r = if chunk < 0 {
            let scratch = Scratch::new();
            let path = scratch.0.join("scan.bin");
            std::fs::write(&path, &bytes).expect("script: write");
            point_cloud_reader::read_from_file(&path)
        } else if chunk == 0 {
            point_cloud_reader::read(&mut bytes.as_slice())
        } else {
            let mut rd = Chunks {
                data: bytes.clone(),
                at: 0,
                chunk: chunk as usize,
                calls: 0,
                fail_at: if fail >= 0 { Some(fail as usize) } else { None },
            };
            point_cloud_reader::read(&mut rd)
        };
        r.ok().map(|c| {
            let v: Vec<Vec<i64>> = c
                .points_iter()
                .map(|p| p.iter().flat_map(|x| halves(*x).to_vec()).collect())
                .collect();
            (c.num_points() as i64, v)
        })
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some(None) => ev.i("ok", 0).end(),
        Some(Some((n, v))) => ev.i("ok", 1).i("n", n).aa("out", &v).end(),
    }
}

/// kbig chunk n tb a b: a scan of n records whose words follow w(k) = a * k + b modulo 2^32. The points
/// are reported as ranges [first, count, d] of points k that hold the words of record k + d.
fn kbig(a: &mut Args) -> String {
    let (chunk, n, tb, f, g) = (a.i(), a.i(), a.i(), a.i(), a.i());
    let word = |k: i64| (f as u32).wrapping_mul(k as u32).wrapping_add(g as u32);
    let mut bytes: Vec<u8> = Vec::with_capacity(16 * n as usize);
    for k in 0..4 * n {
        bytes.extend_from_slice(&word(k).to_ne_bytes());
    }
    bytes.extend_from_slice(&vec![1; tb as usize]);
    let ev = Obj::new("kbig").i("records", n).i("tb", tb).i("chunk", chunk);
    let got = guard(|| {
        let r = if chunk < 0 {
            let scratch = Scratch::new();
            let path = scratch.0.join("scan.bin");
            std::fs::write(&path, &bytes).expect("script: write");
            point_cloud_reader::read_from_file(&path)
        } else if chunk == 0 {
            point_cloud_reader::read(&mut bytes.as_slice())
        } else {
            let mut rd = Chunks { data: bytes.clone(), at: 0, chunk: chunk as usize, calls: 0, fail_at: None };
            point_cloud_reader::read(&mut rd)
        };
        r.ok().map(|c| {
            let holds = |k: i64, p: &kuba::Point3| {
                k >= 0 && k < n && (0..3).all(|i| p[i as usize].to_bits() == word(4 * k + i))
            };
            let mut runs: Vec<Vec<i64>> = vec![];
            for (k, p) in c.points_iter().enumerate() {
                let k = k as i64;
                let d = runs.last().map_or(0, |r| r[2]);
                if runs.len() > 0 && holds(k + d, &p) {
                    runs.last_mut().unwrap()[1] += 1;
                } else if runs.len() < 50 {
                    let near = (0..64).flat_map(|d| vec![d, -d]).find(|d| holds(k + d, &p));
                    runs.push(vec![k, 1, near.unwrap_or(1_000_000_000)]);
                }
            }
            (c.num_points() as i64, runs)
        })
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some(None) => ev.i("ok", 0).end(),
        Some(Some((n, v))) => ev.i("ok", 1).i("n", n).aa("runs", &v).end(),
    }
}

fn deg(micro: i64) -> String {
    format!("{:.9}", micro as f64 / 1e6)
}

/// %XX stands for the byte XX.
fn name_bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let (mut v, mut k) = (vec![], 0);
    while k < b.len() {
        if b[k] == b'%' {
            v.push(u8::from_str_radix(&s[k + 1..k + 3], 16).expect("script: escape"));
            k += 3;
        } else {
            v.push(b[k]);
            k += 1;
        }
    }
    v
}

/// kdir clouds|poses print n (name content)*; n < 0: the directory does not exist.
fn kdir(a: &mut Args) -> String {
    use std::os::unix::ffi::OsStrExt;
    let what = a.s().to_string();
    let how = a.i();
    let print = how & 1 != 0;
    let n = a.i();
    let scratch = Scratch::new();
    let dir = scratch.0.join("data");
    if n >= 0 {
        std::fs::create_dir(&dir).expect("script: mkdir");
    } else if n == -2 {
        std::fs::write(&dir, "1 2 3 0 0 0 0 0 0 0").expect("script: write");
    }
    let mut files: Vec<String> = vec![];
    let mut made: Vec<(std::path::PathBuf, String)> = vec![];
    for _ in 0..n.max(0) {
        let name = name_bytes(a.s());
        let kind = a.s().to_string();
        let path = dir.join(std::ffi::OsStr::from_bytes(&name));
        let named = || Obj::anon().a("name", &name.iter().map(|b| *b as i64).collect::<Vec<_>>());
        if kind == "hard" || kind == "soft" {
            // another name of a file made before, inside the directory or outside it
            let (src, rest) = made[a.i() as usize % made.len()].clone();
            if kind == "hard" {
                std::fs::hard_link(&src, &path).expect("script: link");
            } else {
                let out = scratch.0.join(format!("out{}", files.len()));
                std::fs::copy(&src, &out).expect("script: copy");
                std::os::unix::fs::symlink(&out, &path).expect("script: link");
            }
            files.push(format!("{}{}", named().end().trim_end_matches('}'), rest));
            continue;
        }
        let f = named().st("kind", &kind);
        match kind.as_str() {
            "dir" => {
                std::fs::create_dir(&path).expect("script: mkdir");
                files.push(f.end());
            }
            "link" => {
                std::os::unix::fs::symlink(scratch.0.join("nowhere"), &path).expect("script: link");
                files.push(f.end());
            }
            "cloud" => {
                let (id, np) = (a.i(), a.i());
                let mut b: Vec<u8> = vec![];
                for j in 0..np {
                    for v in &[id as f32, j as f32, -1.0, 0.25] {
                        b.extend_from_slice(&v.to_ne_bytes());
                    }
                }
                std::fs::File::create(&path).unwrap().write_all(&b).unwrap();
                files.push(f.i("id", id).i("np", np).end());
            }
            "bad" => {
                // a scan short of some bytes, or a malformed pose
                let how = a.i();
                let good = vec!["1.5", "2.5", "0.5", "0", "0", "0", "7"];
                let b: Vec<u8> = match (what.as_str(), how) {
                    ("clouds", k) => vec![0; 32 - k as usize],
                    (_, k) if k < 6 => good[..k as usize].join(" ").into_bytes(),
                    (_, k) if k < 12 => {
                        let mut g = good.clone();
                        g[k as usize - 6] = "1.5x";
                        g.join(" ").into_bytes()
                    }
                    _ => {
                        let mut b = good.join(" ").into_bytes();
                        b.extend_from_slice(&[b' ', 0xff, 0xfe]);
                        b
                    }
                };
                std::fs::File::create(&path).unwrap().write_all(&b).unwrap();
                files.push(f.i("how", how).end());
            }
            "pose" => {
                let v = a.n(3);
                let yaw = a.i();
                let t = format!(
                    "{} {} {:.6} 0.0 0.0 {:.6} 1.5 2.5\n",
                    deg(v[0]),
                    deg(v[1]),
                    v[2] as f64 / 1000.0,
                    yaw as f64 / 1000.0
                );
                std::fs::File::create(&path).unwrap().write_all(t.as_bytes()).unwrap();
                files.push(f.a("v", &v).i("yaw", yaw).end());
            }
            _ => panic!("script: bad file kind"),
        }
        if kind == "cloud" || kind == "pose" {
            let t = files.last().unwrap();
            made.push((path, t[t.find(",\"kind\"").unwrap()..].to_string()));
        }
    }
    let dir = if how & 2 != 0 {
        let other = scratch.0.join("alias");
        std::os::unix::fs::symlink(&dir, &other).expect("script: link");
        other
    } else {
        dir
    };
    let dir = if how & 4 != 0 { dir.join(".").join("") } else { dir };
    let ev = Obj::new("kdir").st("what", &what).raw("files", &list(&files));
    let ev = ev.i("missing", (n < 0) as i64);
    let mm = |x: f32| clip((x as f64 * 1000.0).round());
    let got: Option<Option<Vec<Vec<i64>>>> = if what == "clouds" {
        guard(|| {
            point_cloud_reader::read_from_dir(&dir, print).ok().map(|v| {
                v.iter()
                    .map(|c| {
                        // id of the file each point came from, then its position
                        c.points_iter().flat_map(|p| vec![p[0] as i64, p[1] as i64, p[2] as i64]).collect()
                    })
                    .collect()
            })
        })
    } else {
        guard(|| {
            oxt_reader::read_from_dir(&dir, print).ok().map(|v| {
                v.iter()
                    .map(|p| {
                        let t = p.translation.vector;
                        let x = p.rotation * na::Vector3::new(1.0f32, 0.0, 0.0);
                        vec![mm(t[0]), mm(t[1]), mm(t[2]), mm(x[1].atan2(x[0])), mm(x[2])]
                    })
                    .collect()
            })
        })
    };
    match got {
        None => ev.i("failed", 1).end(),
        Some(None) => ev.i("ok", 0).end(),
        Some(Some(v)) => ev.i("ok", 1).aa("out", &v).end(),
    }
}

/// kpose hasorigin org(3) v(3) ang(3) eps(3) nfields bad style how fail: angles are eighth turns plus
/// eps ten-thousandths of a radian, latitude and longitude in microdegrees, altitude in mm; bad is the
/// index of a field that is not a number, or -1; style is how numbers are written; how is 0 for a
/// slice, -1 for a file, else the size of short reads, where fail >= 0 injects an I/O error.
fn kpose(a: &mut Args) -> String {
    let has = a.i() != 0;
    let org = a.n(3);
    let v = a.n(3);
    let (ang, eps) = (a.n(3), a.n(3));
    let (nf, bad, style, how, fail) = (a.i(), a.i(), a.i(), a.i(), a.i());
    // positions are reported in u millimetres
    let u: i64 = a.opt().map_or(1, |t| t.parse().expect("script: bad unit"));
    let mut f: Vec<f64> = vec![v[0] as f64 / 1e6, v[1] as f64 / 1e6, v[2] as f64 / 1000.0];
    for (k, e) in ang.iter().zip(&eps) {
        f.push(*k as f64 * std::f64::consts::PI / 4.0 + *e as f64 / 1e4);
    }
    while (f.len() as i64) < nf {
        f.push(f.len() as f64 + 0.5);
    }
    let mut f: Vec<String> = f
        .iter()
        .map(|x| match style {
            1 => format!("{:.15e}", x),
            2 => format!("{:+.12}", x),
            3 => format!("{}", x),
            4 => if *x < 0.0 { format!("-00{:.12}", -x) } else { format!("00{:.12}", x) },
            5 => format!("{:.13E}", x),
            _ => format!("{:.12}", x),
        })
        .collect();
    f.truncate(nf as usize);
    if bad >= 0 && bad < nf {
        f[bad as usize] = ["x1.0", "1.0x", "1,5", "-", "0x10", "1.0.0"][(bad + nf) as usize % 6].to_string();
    }
    let mut text = f.join(" ");
    if nf > 6 {
        text.push('\n');
    }
    let o = if has {
        Some(na::Translation3::new(
            org[0] as f64 / 1e6,
            org[1] as f64 / 1e6,
            org[2] as f64 / 1000.0,
        ))
    } else {
        None
    };
    let ev = Obj::new("kpose").i("has", has as i64).a("org", &org).a("v", &v).a("ang", &ang);
    let broken = how > 0 && fail >= 0 && fail < text.len() as i64;
    let ev = ev.a("eps", &eps).i("nf", nf).i("bad", bad).i("fail", broken as i64).i("u", u);
    let got = guard(|| {
        let r = if how == 0 {
            oxt_reader::read(&mut text.as_bytes(), o)
        } else if how < 0 {
            let scratch = Scratch::new();
            let path = scratch.0.join("pose.txt");
            std::fs::write(&path, &text).expect("script: write");
            oxt_reader::read_from_file(&path, o)
        } else {
            let mut rd = Chunks {
                data: text.clone().into_bytes(),
                at: 0,
                chunk: how as usize,
                calls: 0,
                fail_at: if broken { Some(fail as usize) } else { None },
            };
            oxt_reader::read(&mut rd, o)
        };
        r.ok().map(|(pose, back)| {
            let t: Vec<i64> = pose
                .translation
                .vector
                .iter()
                .map(|x| clip((*x as f64 * 1000.0 / u as f64).round()))
                .collect();
            let b = vec![
                clip((back.vector[0] * 1e6).round()),
                clip((back.vector[1] * 1e6).round()),
                clip((back.vector[2] * 1000.0).round()),
            ];
            let rot: Vec<Vec<i64>> = (0..3)
                .map(|k| {
                    let mut e = na::Vector3::<f32>::zeros();
                    e[k] = 1.0;
                    let r = pose.rotation * e;
                    r.iter().map(|x| clip((*x as f64 * 10000.0).round())).collect()
                })
                .collect();
            (t, b, rot)
        })
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some(None) => ev.i("ok", 0).end(),
        Some(Some((t, b, rot))) => ev.i("ok", 1).a("t", &t).a("back", &b).aa("rot", &rot).end(),
    }
}

fn micro(x: f32) -> i64 {
    clip((x as f64 * 1e6).round())
}

/// logodds i j: the odds are 2^i * 3^j.
fn logodds(a: &mut Args) -> String {
    let (i, j) = (a.i(), a.i());
    let odds = 2f64.powi(i as i32) * 3f64.powi(j as i32);
    let p = (odds / (1.0 + odds)) as f32;
    let ev = Obj::new("logodds").i("i", i).i("j", j).i("p", micro(p));
    let got = guard(|| {
        let l = kuba::logodds_from_probability(p);
        let exact = (i as f64 * 2f64.ln() + j as f64 * 3f64.ln()) as f32;
        (l, kuba::probability_from_logodds(l), kuba::probability_from_logodds(exact))
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some((l, b, q)) => ev.i("l", micro(l)).i("back", micro(b)).i("q", micro(q)).end(),
    }
}

/// lochain n p...: probabilities in parts per million, ascending; m l...: log-odds in milli-units.
fn lochain(a: &mut Args) -> String {
    let n = a.i() as usize;
    let ps = a.n(n);
    let m = a.i() as usize;
    let ls = a.n(m);
    let ev = Obj::new("lochain").a("ps", &ps).a("ls", &ls);
    let got = guard(|| {
        let l: Vec<i64> = ps
            .iter()
            .map(|p| micro(kuba::logodds_from_probability((*p as f64 / 1e6) as f32)))
            .collect();
        let p: Vec<i64> = ls
            .iter()
            .map(|l| {
                // two thousand millions stand for infinity
                let x = if l.abs() < 2_000_000_000 { *l as f64 / 1e3 } else { *l as f64 * f64::INFINITY };
                micro(kuba::probability_from_logodds(x as f32))
            })
            .collect();
        let back: Vec<i64> = ps
            .iter()
            .map(|p| micro(kuba::probability_from_logodds(kuba::logodds_from_probability((*p as f64 / 1e6) as f32))))
            .collect();
        (l, p, back)
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some((l, p, back)) => ev.a("l", &l).a("p", &p).a("back", &back).end(),
    }
}

/// sgn e v v v: sign function on v * 10^-e, alone and as the parts of a vector.
fn sgn(a: &mut Args) -> String {
    let e = a.i();
    let v = a.n(3);
    let f = |x: i64| (x as f64 * 10f64.powi(-e as i32)) as f32;
    let ev = Obj::new("sgn").a("v", &v);
    let got = guard(|| {
        let s: Vec<i64> = v.iter().map(|x| micro(kuba::f32_signum(f(*x)))).collect();
        let w = kuba::Vector3::new(f(v[0]), f(v[1]), f(v[2]));
        let t: Vec<i64> = kuba::vector::signum(&w).iter().map(|x| micro(*x)).collect();
        let w2 = kuba::Vector2::new(f(v[0]), f(v[1]));
        let t2: Vec<i64> = kuba::vector::signum(&w2).iter().map(|x| micro(*x)).collect();
        (s, t, t2)
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some((s, t, t2)) => ev.a("s", &s).a("t", &t).a("t2", &t2).end(),
    }
}

pub fn run(op: &str, a: &mut Args) -> String {
    match op {
        "kcloud" => kcloud(a),
        "kdir" => kdir(a),
        "kbig" => kbig(a),
        "kpose" => kpose(a),
        "logodds" => logodds(a),
        "lochain" => lochain(a),
        "sgn" => sgn(a),
        "nm" => nm(a),
        _ => panic!("script: unknown op {}", op),
    }
}

/// nm mode p(5, ppm) range(mm): builds a noise model from probabilities (mode 1) or the default (0).
fn nm(a: &mut Args) -> String {
    let mode = a.i();
    let ps = a.n(5);
    let range = a.i();
    let ev = Obj::new("nm").i("mode", mode).a("ps", &ps).i("range", range);
    let p = |i: usize| match ps[i] {
        2_000_000_000 => f32::INFINITY,
        -2_000_000_000 => f32::NEG_INFINITY,
        2_000_000_001 => f32::NAN,
        2_000_000_002 => 1.0 + f32::EPSILON,
        -2_000_000_002 => -f32::from_bits(1),
        x => (x as f64 / 1e6) as f32,
    };
    let got = guard(|| {
        let m = if mode == 0 {
            kuba::LidarNoiseModel::default()
        } else {
            kuba::LidarNoiseModel::new(p(0), p(1), p(2), p(3), p(4), range as f32 / 1000.0)
        };
        let l = vec![
            micro(m.hit_probability_logodds),
            micro(m.miss_probability_logodds),
            micro(m.min_probability_logodds),
            micro(m.max_probability_logodds),
            micro(m.occupied_threshold_logodds),
        ];
        let want: Vec<i64> =
            (0..5).map(|i| micro(kuba::logodds_from_probability(p(i)))).collect();
        (l, want, clip((m.max_range as f64 * 1000.0).round()))
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some((l, want, r)) => ev.a("l", &l).a("want", &want).i("r", r).end(),
    }
}
