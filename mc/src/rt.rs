//! Native runtime for the real contract: executes messages against the compiled service, with the
//! system-call layer replaced by `gsys::mock` and with transaction semantics (a trap reverts).
use futures::FutureExt;
use gsys::mock::{env, fresh_id, Control, Sent};
use invariant::verif;
use io::InvariantConfig;
use parity_scale_codec::{Decode, Encode};
use sails_rs::ActorId;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Mutex;

static mut PROGRAM: Option<invariant::InvariantProgram> = None;
static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub const PROGRAM_ID: u8 = 0xEE;

pub fn actor(n: u8) -> ActorId {
    if n == 0 { return ActorId::zero(); }
    let mut a = [0u8; 32];
    a[0] = n;
    a[31] = 1;
    ActorId::from(a)
}
pub fn hash(a: ActorId) -> [u8; 32] { a.into() }

/// How the execution of one message ended.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    /// Returned normally; the reply payload.
    Done(Vec<u8>),
    /// Ended by gr_leave after an explicit reply.
    Left,
    /// Went to the wait list for at most this many blocks.
    Waiting(u32),
    /// Trapped; everything it did has been reverted.
    Trap(String),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Outcome {
    pub end: End,
    pub msg_id: [u8; 32],
    pub events: Vec<Vec<u8>>,
    pub sent: Vec<Sent>,
    pub reply: Option<(Vec<u8>, u128)>,
    pub woken: Vec<[u8; 32]>,
}
impl Outcome {
    pub fn ok(&self) -> bool { !matches!(self.end, End::Trap(_)) }
    pub fn trap(&self) -> &str { match &self.end { End::Trap(s) => s, _ => "" } }
}

pub fn install(config: InvariantConfig) {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_TRACE_PANIC").is_some() || msg.starts_with("harness") || loc.starts_with("src/")  && !loc.contains("invariant_") { eprintln!("panic: {msg} at {loc}"); }
        *PANIC.lock().unwrap() = Some((msg, loc));
    }));
    let e = env();
    e.program_id = hash(actor(PROGRAM_ID));
    e.gas_available = 250_000_000_000;
    e.value_available = u128::MAX / 2;
    sails_rs::gstd::events::__enable_events();
    unsafe { PROGRAM = Some(invariant::InvariantProgram::new(config)); }
}
#[allow(static_mut_refs)]
pub fn program() -> &'static invariant::InvariantProgram { unsafe { PROGRAM.as_ref().expect("installed") } }

/// Last panic message (and location) seen by the hook.
pub fn last_panic() -> (String, String) { PANIC.lock().unwrap().take().unwrap_or_default() }

/// Runs a closure, turning a panic of the code under test into Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (m, l) = last_panic();
        if l.starts_with("src/") || m.starts_with("harness") { panic!("harness: {m} at {l}"); }
        m
    })
}

fn run_message(body: impl FnOnce() -> Option<Vec<u8>>) -> Outcome {
    let e = env();
    e.sent.clear(); e.reply = None; e.wakes.clear(); e.reply_deposits.clear();
    let msg_id = e.msg_id;
    let before = verif::snapshot();
    let r = catch_unwind(AssertUnwindSafe(body));
    let e = env();
    let end = match r {
        Ok(Some(p)) => End::Done(p),
        Ok(None) => End::Done(vec![]),
        Err(p) => match p.downcast_ref::<Control>() {
            Some(Control::Leave) => End::Left,
            Some(Control::Wait) => End::Waiting(u32::MAX),
            Some(Control::WaitFor(n)) | Some(Control::WaitUpTo(n)) => End::Waiting(*n),
            None => {
                let (m, l) = last_panic();
                let m = if m.starts_with("InvariantError") { m } else { format!("{m} @ {l}") };
                End::Trap(m)
            }
        },
    };
    let (mut events, mut sent, mut reply, mut woken) = (vec![], vec![], None, vec![]);
    if matches!(end, End::Trap(_)) {
        verif::restore(&before);
    } else {
        for s in e.sent.drain(..) {
            if s.dest == [0u8; 32] { events.push(s.payload) } else { sent.push(s) }
        }
        reply = e.reply.take();
        woken = e.wakes.drain(..).map(|w| w.0).collect();
    }
    Outcome { end, msg_id, events, sent, reply, woken }
}

pub fn set_clock(block: u32, time: u64) { let e = env(); e.block_height = block; e.timestamp = time; }

/// A message to the service that is not expected to wait: dispatches the wire-level input.
pub fn call(caller: ActorId, value: u128, input: &[u8]) -> Outcome {
    let e = env();
    e.source = hash(caller); e.value = value; e.msg_id = fresh_id(); e.reply_to = None; e.reply_code = None;
    e.value_available = e.value_available.saturating_add(value);
    e.payload = [b"\x1cService".as_slice(), input].concat();
    run_message(|| {
        let mut svc = program().service();
        let out = svc.handle(input).now_or_never();
        Some(out.unwrap_or_else(|| panic!("harness: synchronous call waited")))
    })
}

/// A query as a node answers it: what the message would reply, leaving no trace.
pub fn peek(input: &[u8]) -> Result<Vec<u8>, String> {
    let (was, held) = (verif::snapshot(), env().value_available);
    let out = call(ActorId::zero(), 0, input);
    verif::restore(&was);
    env().value_available = held;
    match out { Outcome { end: End::Done(b), .. } => Ok(b), o => Err(o.trap().to_string()) }
}

/// First or resumed execution of an asynchronous message.
pub fn call_async(caller: ActorId, msg_id: [u8; 32], input: &[u8]) -> Outcome {
    let e = env();
    e.source = hash(caller); e.value = 0; e.msg_id = msg_id; e.reply_to = None; e.reply_code = None;
    e.payload = [b"\x1cService".as_slice(), input].concat();
    let input = input.to_vec();
    run_message(move || {
        let cell: Rc<RefCell<Option<Vec<u8>>>> = Rc::new(RefCell::new(None));
        let _ = &cell;
        // the finished task replies through msg::reply_bytes exactly as the generated entry point does
        gstd::message_loop(async move {
            let mut svc = program().service();
            let out = svc.handle(&input).await;
            gstd::msg::reply_bytes(out, 0).expect("reply");
        });
        None
    })
}

/// Delivery of a reply to message `to`.
pub fn deliver_reply(from: ActorId, to: [u8; 32], code: [u8; 4], payload: &[u8]) -> Outcome {
    let e = env();
    e.source = hash(from); e.value = 0; e.msg_id = fresh_id(); e.reply_to = Some(to); e.reply_code = Some(code);
    e.payload = payload.to_vec();
    let r = run_message(|| { gstd::handle_reply_with_hook(); None });
    env().reply_to = None; env().reply_code = None;
    r
}

pub fn input(method: &str, args: impl Encode) -> Vec<u8> {
    let mut v = method.to_string().encode();
    args.encode_to(&mut v);
    v
}

/// Decodes `method-route ++ value`.
pub fn decode_reply<T: Decode>(method: &str, bytes: &[u8]) -> Result<T, String> {
    let mut b = bytes;
    let m = String::decode(&mut b).map_err(|e| e.to_string())?;
    if m != method { return Err(format!("reply route {m:?}, expected {method:?}")); }
    let v = T::decode(&mut b).map_err(|e| e.to_string())?;
    if !b.is_empty() { return Err("trailing bytes in reply".into()); }
    Ok(v)
}
