//! Programs in other languages, which answer one line for each line

use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

extern "C" {
    fn prctl(option: i32, ...) -> i32;
}

struct Running {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Helper {
    command: &'static [&'static str],
    running: RefCell<Option<Running>>,
}

impl Helper {
    pub const fn new(command: &'static [&'static str]) -> Helper {
        Helper {
            command,
            running: RefCell::new(None),
        }
    }

    fn start(&self) -> Running {
        let mut cmd = Command::new(self.command[0]);
        cmd.args(&self.command[1..]).env("PYTHONUTF8", "1");
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        // It ends with this process
        unsafe {
            cmd.pre_exec(|| {
                prctl(1, 9u64);
                Ok(())
            });
        }
        let mut child = cmd.spawn().unwrap_or_else(|e| panic!("HARNESS: {}: {}", self.command[0], e));
        Running {
            stdin: child.stdin.take().unwrap(),
            stdout: BufReader::new(child.stdout.take().unwrap()),
            child,
        }
    }

    pub fn ask(&self, what: &Value) -> Result<Value, String> {
        let mut running = self.running.borrow_mut();
        let r = running.get_or_insert_with(|| self.start());
        let mut line = String::new();
        let n = writeln!(r.stdin, "{}", what).and_then(|_| r.stdout.read_line(&mut line));
        if !matches!(n, Ok(n) if n > 0) {
            *running = None;
            return Err(format!("HARNESS: {} ended: {:?}", self.command[0], n));
        }
        serde_json::from_str(&line).map_err(|e| format!("HARNESS: {}: {}", e, line))
    }
}
