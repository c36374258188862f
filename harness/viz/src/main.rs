//! Runs the visualiser's own code under a schedule explorer and reports what its window drew.
//!
//!   viz S laps n  then per scan  x y z roll pitch yaw k x y z ...   sets the scene (places and points in
//!                                sub-units, angles in quarter turns) and writes it to disk
//!   run seed                     one schedule
//!
//! One JSON event per line; no expectations: /verif/spec/TraceViz.tla decides.
extern crate app;

#[path = "../../conf/src/out.rs"]
mod out;

use out::{arr, arr2, clip, list, Obj};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static PROGRESS: AtomicU64 = AtomicU64::new(0);
const RES: f64 = 0.1;

struct Scene {
    laps: i64,
    scans: usize,
    dir: std::path::PathBuf,
}

fn put(path: std::path::PathBuf, bytes: &[u8]) {
    std::fs::write(&path, bytes).unwrap_or_else(|e| panic!("script: {:?}: {}", path, e));
}

fn scene(a: &[i64], serial: usize) -> (Scene, String) {
    let mut it = a.iter().copied();
    let mut i = || it.next().expect("script: missing number");
    let (s, laps, n) = (i(), i(), i());
    let dir = std::env::temp_dir().join(format!("viz-{}-{}", std::process::id(), serial));
    let (oxts, velo) = (dir.join("oxts/data"), dir.join("velodyne_points/data"));
    std::fs::create_dir_all(&oxts).expect("script: dir");
    std::fs::create_dir_all(&velo).expect("script: dir");
    let mut scans = vec![];
    for k in 0..n {
        let at = vec![i(), i(), i()];
        let ang = vec![i(), i(), i()];
        let np = i();
        let p: Vec<Vec<i64>> = (0..np).map(|_| vec![i(), i(), i()]).collect();
        let su = RES / s as f64;
        let turn = |q: i64| format!("{:.12}", q as f64 * std::f64::consts::PI / 2.0);
        // at[0] and at[1] are east and north of the first scan (see C21)
        let east = at[0] as f64 * su / (40_075_160.0 * 49f64.to_radians().cos()) * 360.0;
        let north = at[1] as f64 * su / 40_008_000.0 * 360.0;
        let line = format!(
            "{:.12} {:.12} {:.6} {} {} {} 0 0 0",
            49.0 + north,
            8.4 + east,
            100.0 + at[2] as f64 * su,
            turn(ang[0]),
            turn(ang[1]),
            turn(ang[2])
        );
        put(oxts.join(format!("{:010}.txt", k)), line.as_bytes());
        let mut bytes = vec![];
        for q in &p {
            for x in q {
                bytes.extend_from_slice(&((*x as f64 * su) as f32).to_ne_bytes());
            }
            bytes.extend_from_slice(&0.5f32.to_ne_bytes());
        }
        put(velo.join(format!("{:010}.bin", k)), &bytes);
        scans.push(Obj::anon().a("pos", &at).a("ang", &ang).aa("p", &p).end());
    }
    let ev = Obj::new("viz").i("S", s).i("laps", laps).raw("scans", &list(&scans)).end();
    (Scene { laps, scans: n as usize, dir }, ev)
}

fn run(sc: &Scene, seed: u64) -> String {
    let dir = sc.dir.to_str().unwrap().to_string();
    *shimstd::env::ARGS.lock().unwrap_or_else(|e| e.into_inner()) = vec!["viz".to_string(), dir];
    let target = sc.scans * sc.laps as usize + 1;
    let mut config = shuttle::Config::new();
    config.stack_size = 4 << 20;
    config.failure_persistence = shuttle::FailurePersistence::None;
    config.silence_warnings = true;
    let got = std::panic::catch_unwind(move || {
        let scheduler = shuttle::scheduler::RandomScheduler::new_from_seed(seed, 1);
        shuttle::Runner::new(scheduler, config).run(move || {
            let log = kiss3d::Log { target, max_frames: 400 * target, ..Default::default() };
            *kiss3d::LOG.lock().unwrap_or_else(|e| e.into_inner()) = Some(log);
            app::visualiser();
        });
    });
    let log = kiss3d::LOG.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
    let k = 1000.0 / RES;
    let milli = |p: &[f32; 3]| p.iter().map(|x| clip((*x as f64 * k).round())).collect::<Vec<i64>>();
    let frames: Vec<String> = log
        .frames
        .iter()
        .map(|f| {
            let at = f.marker.map_or(vec![], |m| milli(&m));
            let p: Vec<Vec<i64>> = f.points.iter().map(milli).collect();
            format!("{{\"at\":{},\"p\":{}}}", arr(&at), arr2(&p))
        })
        .collect();
    let end = if got.is_err() { "failed" } else if log.stuck { "stuck" } else { "ok" };
    Obj::new("run").st("end", end).raw("fr", &list(&frames)).end()
}

fn main() {
    let limit: u64 = std::env::var("CONF_OP_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::SeqCst);
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 > 2 * limit {
                std::process::exit(77);
            }
        }
    });
    let stdin = std::io::stdin();
    let mut current: Option<Scene> = None;
    for (no, line) in stdin.lock().lines().enumerate() {
        let line = line.expect("script: read");
        let mut words = line.split_ascii_whitespace();
        let op = words.next().expect("script: empty line");
        let a: Vec<i64> = words.map(|w| w.parse().expect("script: bad number")).collect();
        let ev = match op {
            "viz" => {
                if let Some(s) = current.take() {
                    let _ = std::fs::remove_dir_all(&s.dir);
                }
                let (s, ev) = scene(&a, no);
                current = Some(s);
                ev
            }
            "run" => run(current.as_ref().expect("script: no scene"), a[0] as u64),
            _ => panic!("script: unknown op {}", op),
        };
        let mut out = std::io::stdout();
        // The visualiser prints too; events start on a fresh line.
        out.write_all(format!("\n{}\n", ev).as_bytes()).unwrap();
        out.flush().unwrap();
        PROGRESS.fetch_add(1, Ordering::SeqCst);
    }
    if let Some(s) = current {
        let _ = std::fs::remove_dir_all(&s.dir);
    }
}
