//! A window that draws nothing: it records what every frame draws and yields to the other threads
//! between frames. It stops when the frame marker has moved often enough, or after MAX_FRAMES.
extern crate nalgebra as na;

pub mod light {
    pub enum Light {
        Absolute(na::Point3<f32>),
        StickToCamera,
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Frame {
    pub marker: Option<[f32; 3]>,
    pub points: Vec<[f32; 3]>,
}

#[derive(Default)]
pub struct Log {
    pub frames: Vec<Frame>,
    pub moves: usize,
    pub target: usize,
    pub max_frames: usize,
    pub rendered: usize,
    pub stuck: bool,
}

pub static LOG: std::sync::Mutex<Option<Log>> = std::sync::Mutex::new(None);

pub mod window {
    use super::{Frame, LOG};
    use na::Point3;

    pub trait State: 'static {
        fn step(&mut self, window: &mut Window);
    }

    pub struct Window {
        current: Frame,
    }

    impl Window {
        pub fn new(_title: &str) -> Window {
            Window { current: Frame::default() }
        }
        pub fn new_with_size(title: &str, _w: u32, _h: u32) -> Window {
            Window::new(title)
        }
        pub fn set_light(&mut self, _light: super::light::Light) {}
        pub fn set_point_size(&mut self, _size: f32) {}
        pub fn set_line_width(&mut self, _width: f32) {}
        pub fn set_background_color(&mut self, _r: f32, _g: f32, _b: f32) {}
        pub fn set_framerate_limit(&mut self, _fps: Option<u64>) {}
        pub fn set_title(&mut self, _title: &str) {}
        pub fn draw_point(&mut self, p: &Point3<f32>, _color: &Point3<f32>) {
            self.current.points.push([p.x, p.y, p.z]);
        }
        pub fn draw_line(&mut self, a: &Point3<f32>, _b: &Point3<f32>, _color: &Point3<f32>) {
            if self.current.marker.is_none() {
                self.current.marker = Some([a.x, a.y, a.z]);
            }
        }
        pub fn should_close(&self) -> bool {
            false
        }
        /// Shows the frame. False when the window is closed.
        pub fn render(&mut self) -> bool {
            let mut f = std::mem::take(&mut self.current);
            f.points.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            let more = {
                let mut guard = LOG.lock().unwrap_or_else(|e| e.into_inner());
                let log = guard.as_mut().unwrap();
                log.rendered += 1;
                let moved = log.frames.last().map_or(true, |p| p.marker != f.marker);
                log.moves += moved as usize;
                if log.frames.last() != Some(&f) {
                    log.frames.push(f);
                }
                let done = log.moves >= log.target;
                log.stuck = !done && log.rendered >= log.max_frames;
                !done && !log.stuck
            };
            shuttle::thread::yield_now();
            more
        }
        pub fn render_loop<S: State>(mut self, mut state: S) {
            loop {
                state.step(&mut self);
                if !self.render() {
                    return;
                }
            }
        }
    }
}
