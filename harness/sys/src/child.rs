//! A process to be observed: does what it is told on its standard input, and nothing else.
use std::io::{BufRead, Write};
use std::sync::mpsc;

fn times() -> (u64, u64) {
    let mut r: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut r) };
    (r.ru_utime.tv_sec as u64 * 1000 + r.ru_utime.tv_usec as u64 / 1000, r.ru_stime.tv_sec as u64 * 1000 + r.ru_stime.tv_usec as u64 / 1000)
}
/// Use up this many milliseconds of user and of system time.
pub fn burn(user: u64, sys: u64) {
    let (u, s) = times();
    let mut x = 1u64;
    while times().0 < u + user {
        for _ in 0..2_000_000 {
            x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
        }
    }
    if sys > 0 {
        let zero = std::fs::File::open("/dev/zero").unwrap();
        let mut buf = vec![0u8; 4 << 20];
        while times().1 < s + sys {
            std::io::Read::read(&mut &zero, &mut buf).unwrap();
        }
    }
}

pub fn serve() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut fds: Vec<i32> = vec![];
    let mut threads: Vec<(mpsc::Sender<()>, std::thread::JoinHandle<()>)> = vec![];
    let mut maps: Vec<(usize, usize)> = vec![];
    let null = b"/dev/null\0".as_ptr() as *const libc::c_char;
    let mut out = std::io::stdout();
    let say = |out: &mut std::io::Stdout, s: &str| {
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    };
    say(&mut out, "ok\n");
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split(' ').collect();
        let n: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        match w[0] {
            "open" => {
                for i in 0..n {
                    let fd = unsafe {
                        match i % 4 {
                            0 => libc::open(null, libc::O_RDONLY),
                            1 => libc::dup(0),
                            2 => libc::socket(libc::AF_UNIX, libc::SOCK_STREAM, 0),
                            _ => libc::eventfd(0, 0),
                        }
                    };
                    if fd >= 0 {
                        fds.push(fd)
                    }
                }
            }
            "close" => {
                for _ in 0..n {
                    // from the middle, so that the numbers have holes
                    if !fds.is_empty() {
                        let fd = fds.swap_remove(fds.len() / 2);
                        unsafe { libc::close(fd) };
                    }
                }
            }
            "threads" => {
                for _ in 0..n {
                    let (tx, rx) = mpsc::channel::<()>();
                    let (up, ready) = mpsc::channel::<()>();
                    let h = std::thread::Builder::new().stack_size(64 << 10).spawn(move || {
                        up.send(()).unwrap();
                        let _ = rx.recv();
                    });
                    if let Ok(h) = h {
                        ready.recv().unwrap();
                        threads.push((tx, h))
                    }
                }
            }
            "join" => {
                for _ in 0..n {
                    if let Some((tx, h)) = threads.pop() {
                        drop(tx);
                        h.join().unwrap();
                    }
                }
            }
            // map n MiB and touch the first m of them
            "map" => unsafe {
                let m: usize = w[2].parse().unwrap();
                let p = libc::mmap(std::ptr::null_mut(), n << 20, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                if p != libc::MAP_FAILED {
                    for o in (0..(m.min(n) << 20)).step_by(4096) {
                        (p as *mut u8).add(o).write(1);
                    }
                    maps.push((p as usize, n << 20));
                }
            },
            "unmap" => {
                for _ in 0..n {
                    if let Some((p, l)) = maps.pop() {
                        unsafe { libc::munmap(p as *mut _, l) };
                    }
                }
            }
            "burn" => burn(n as u64, w[2].parse().unwrap()),
            // the same in a child that is waited for: no time of ours
            "burnchild" => {
                std::process::Command::new("/proc/self/exe").arg("burn").args(&w[1..3]).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).status().unwrap();
            }
            "burnthread" => {
                let m = w[2].parse().unwrap();
                std::thread::spawn(move || burn(n as u64, m)).join().unwrap();
            }
            "name" => unsafe {
                let mut name: Vec<u8> = w[1].as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
                name.push(0);
                libc::prctl(libc::PR_SET_NAME, name.as_ptr());
            },
            "exit" => std::process::exit(0),
            c => panic!("unknown command {c}"),
        }
        say(&mut out, "ok\n");
    }
}
