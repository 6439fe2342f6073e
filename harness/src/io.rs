//! Instrumented reader and writer: they record every event at the boundary
//! between the crate and its environment, and inject schedules and faults.
use crate::util::Rng;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// What every injected error says, to be found again in what is reported
pub const FAULT: &str = "fault injected by the monitor";

/// Kinds of error a reader or writer may report (not: `Interrupted`, which
/// means try again, and `UnexpectedEof`, which has an error of its own)
pub const KINDS: [ErrorKind; 32] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

fn injected(kind: ErrorKind) -> io::Error {
    io::Error::new(kind, FAULT)
}

#[derive(Default, Debug, Clone)]
pub struct ReadLog {
    /// bytes delivered to the decoder
    pub consumed: usize,
    /// read calls
    pub calls: u64,
    /// read calls which returned end of file
    pub eofs: u64,
    pub interrupts: u64,
    pub shorts: u64,
    pub faults: u64,
}

/// How reads are delivered
#[derive(Clone, Debug)]
pub struct ReadPlan {
    /// maximum bytes per call (0: as many as asked for)
    pub max_chunk: usize,
    /// random chunk sizes
    pub random: bool,
    /// 1-in-n chance of an Interrupted error (0: never)
    pub interrupt: usize,
    /// offset at which a (sticky) error is returned
    pub fail_at: Option<(usize, ErrorKind)>,
    pub seed: u64,
}

impl ReadPlan {
    pub fn plain() -> Self {
        ReadPlan { max_chunk: 0, random: false, interrupt: 0, fail_at: None, seed: 1 }
    }
    pub fn gen_plan(rng: &mut Rng) -> Self {
        let max_chunk = match rng.below(5) {
            0 => 0,
            1 => 1,
            2 => rng.range(1, 7),
            3 => rng.range(1, 300),
            _ => rng.range(1, 3),
        };
        ReadPlan {
            max_chunk,
            random: rng.one_in(2),
            interrupt: rng.pick(&[0, 0, 2, 3, 10]),
            fail_at: None,
            seed: rng.u64(),
        }
    }
}

pub struct MonReader {
    data: Rc<Vec<u8>>,
    pos: usize,
    plan: ReadPlan,
    rng: Rng,
    pub log: Rc<RefCell<ReadLog>>,
    budget: u64,
}

impl MonReader {
    pub fn new(data: Rc<Vec<u8>>, plan: ReadPlan) -> (Self, Rc<RefCell<ReadLog>>) {
        let log = Rc::new(RefCell::new(ReadLog::default()));
        let budget = 64 * data.len() as u64 + 20_000;
        let rng = Rng::new(plan.seed);
        (MonReader { data, pos: 0, plan, rng, log: log.clone(), budget }, log)
    }
}

impl Read for MonReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut log = self.log.borrow_mut();
        log.calls += 1;
        if log.calls > self.budget || log.eofs > 5_000 {
            drop(log);
            // Progress monitor, in logical steps
            panic!("LIVELOCK: reader polled without progress");
        }
        if self.plan.interrupt > 0 && self.rng.one_in(self.plan.interrupt) {
            log.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some((at, kind)) = self.plan.fail_at {
            if self.pos >= at {
                log.faults += 1;
                return Err(injected(kind));
            }
            n = n.min(at - self.pos);
        }
        if self.plan.max_chunk > 0 {
            n = n.min(self.plan.max_chunk);
        }
        if self.plan.random && n > 1 {
            n = self.rng.range(1, n);
        }
        if n == 0 {
            if !buf.is_empty() {
                log.eofs += 1;
            }
            return Ok(0);
        }
        if n < buf.len() {
            log.shorts += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        log.consumed = self.pos;
        Ok(n)
    }
}

#[derive(Default, Debug, Clone)]
pub struct WriteLog {
    pub bytes: Vec<u8>,
    pub calls: u64,
    pub interrupts: u64,
    pub shorts: u64,
    pub faults: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    Kind(ErrorKind),
    /// write returns Ok(0)
    Zero,
}

#[derive(Clone, Debug)]
pub struct WritePlan {
    pub max_chunk: usize,
    pub random: bool,
    pub interrupt: usize,
    pub fail_at: Option<(usize, WFault)>,
    pub seed: u64,
}

impl WritePlan {
    pub fn plain() -> Self {
        WritePlan { max_chunk: 0, random: false, interrupt: 0, fail_at: None, seed: 1 }
    }
    pub fn gen_plan(rng: &mut Rng) -> Self {
        WritePlan {
            max_chunk: rng.pick(&[0, 1, 2, 3, 5, 13, 100, 254]),
            random: rng.one_in(2),
            interrupt: rng.pick(&[0, 0, 2, 3, 10]),
            fail_at: None,
            seed: rng.u64(),
        }
    }
}

pub struct MonWriter {
    plan: WritePlan,
    rng: Rng,
    pub log: Rc<RefCell<WriteLog>>,
}

impl MonWriter {
    pub fn new(plan: WritePlan) -> (Self, Rc<RefCell<WriteLog>>) {
        let log = Rc::new(RefCell::new(WriteLog::default()));
        let rng = Rng::new(plan.seed);
        (MonWriter { plan, rng, log: log.clone() }, log)
    }
}

impl Write for MonWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut log = self.log.borrow_mut();
        log.calls += 1;
        if log.faults > 5_000 {
            drop(log);
            panic!("LIVELOCK: writer polled without progress");
        }
        if self.plan.interrupt > 0 && self.rng.one_in(self.plan.interrupt) {
            log.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if let Some((at, fault)) = self.plan.fail_at {
            let room = at.saturating_sub(log.bytes.len());
            if room == 0 && n > 0 {
                log.faults += 1;
                return match fault {
                    WFault::Kind(k) => Err(injected(k)),
                    WFault::Zero => Ok(0),
                };
            }
            n = n.min(room);
        }
        if self.plan.max_chunk > 0 {
            n = n.min(self.plan.max_chunk);
        }
        if self.plan.random && n > 1 {
            n = self.rng.range(1, n);
        }
        if n < buf.len() {
            log.shorts += 1;
        }
        log.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
