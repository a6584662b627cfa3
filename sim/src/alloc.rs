//! Calling the allocator, with panics turned into outcomes.

use crate::prog::*;
use regalloc2::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok(Box<Output>),
    Err(RegAllocError),
    Panic(String),
}

pub fn opts(fast: bool, verbose: bool, validate: bool) -> RegallocOptions {
    RegallocOptions {
        verbose_log: verbose,
        validate_ssa: validate,
        algorithm: if fast { Algorithm::Fastalloc } else { Algorithm::Ion },
    }
}

pub fn run_fresh<G: Gate>(f: &SimFunc<G>, env: &MachineEnv, o: &RegallocOptions) -> Res {
    match catch_unwind(AssertUnwindSafe(|| regalloc2::run(f, env, o))) {
        Ok(Ok(x)) => Res::Ok(Box::new(x)),
        Ok(Err(e)) => Res::Err(e),
        Err(_) => Res::Panic(last_panic()),
    }
}

pub fn run_ctx<G: Gate>(f: &SimFunc<G>, env: &MachineEnv, o: &RegallocOptions, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| {
        regalloc2::run_with_ctx(f, env, o, ctx).map(|x| x.clone())
    })) {
        Ok(Ok(x)) => Res::Ok(Box::new(x)),
        Ok(Err(e)) => Res::Err(e),
        Err(_) => Res::Panic(last_panic()),
    }
}
