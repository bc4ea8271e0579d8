//! Builds the real combinators from a description of a parser tree and runs them.
use crate::carrier::*;
use crate::util::*;
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
    ParserOnce, ParserResult, UnknownLocation,
};
use parcom_parsers::iterative::*;
use parcom_parsers::{
    combinator::bin_expr::{Associativity, BinExprParser, Operator},
    util::Boxed,
    AndThen, IterativeParserExtension, Join, Map, MapErr, Optional, Or, ParserExtension, Ref, Repeat, Unify, UnifyErr,
};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{done, fail, Either, EitherBoth};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const MOD: u32 = 7;

#[derive(Clone, Debug)]
pub struct Val {
    pub s: String,
    pub h: u32,
}
impl Val {
    pub fn new(s: impl Into<String>, h: u32) -> Val {
        Val { s: s.into(), h: h % MOD }
    }
}
#[derive(Clone, Debug)]
pub struct DErr {
    pub s: String,
    pub f: bool,
}
impl ParseError for DErr {
    fn should_terminate(&self) -> bool {
        self.f
    }
}
impl DErr {
    pub fn new(s: impl Into<String>, f: bool) -> DErr {
        DErr { s: s.into(), f }
    }
    pub fn miss(e: Miss<()>) -> DErr {
        DErr::new("m", e.should_terminate())
    }
}

thread_local! {
    static LOG: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
    static FUEL: Cell<usize> = const { Cell::new(0) };
    /// calls are only counted
    static ONLY_COUNT: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
fn log_call(name: String, pos: usize) {
    if ONLY_COUNT.with(|c| c.get()) {
        CALLS.with(|c| c.set(c.get() + 1));
        burn();
        return;
    }
    log(json!({"n": name, "p": pos}));
}
fn log_map(name: &str, v: String) {
    log(json!({"n": name, "v": v}));
}
fn burn() {
    FUEL.with(|f| {
        if f.get() == 0 {
            panic!("runs on without end");
        }
        f.set(f.get() - 1);
    });
}
fn log(s: Value) {
    burn();
    if ONLY_COUNT.with(|c| c.get()) {
        return;
    }
    LOG.with(|l| l.borrow_mut().push(s));
}

pub type PR<S, T = Val> = ParseResult<S, T, DErr>;

pub trait Obj<S> {
    fn parse<'a>(&'a self, s: S) -> Fut<'a, PR<S>>;
    fn once(&self, s: S) -> Fut<'static, PR<S>>;
}
pub struct DynP<S>(Rc<dyn Obj<S>>);
impl<S> Clone for DynP<S> {
    fn clone(&self) -> Self {
        DynP(self.0.clone())
    }
}
impl<S: Carrier> ParserOnce<S> for DynP<S> {
    type Output = Val;
    type Error = DErr;
    async fn parse_once(self, s: S) -> ParserResult<S, Self> {
        self.0.once(s).await
    }
}
impl<S: Carrier> Parser<S> for DynP<S> {
    async fn parse(&self, s: S) -> ParserResult<S, Self> {
        self.0.parse(s).await
    }
}

pub trait DState<S> {
    fn next<'a>(&'a mut self, s: S) -> Fut<'a, PR<S, Option<Val>>>;
}
pub trait IObj<S> {
    fn iter<'a>(&'a self) -> BoxState<'a, S>;
    fn once(&self) -> BoxState<'static, S>;
}
pub struct BoxState<'a, S>(Box<dyn DState<S> + 'a>);
impl<'a, S: Carrier> IterativeParserState<S> for BoxState<'a, S> {
    type Output = Val;
    type Error = DErr;
    async fn parse_next(&mut self, s: S) -> PR<S, Option<Val>> {
        self.0.next(s).await
    }
}
pub struct DynI<S>(Rc<dyn IObj<S>>);
impl<S> Clone for DynI<S> {
    fn clone(&self) -> Self {
        DynI(self.0.clone())
    }
}
impl<S: Carrier> IterativeParserOnce<S> for DynI<S> {
    type Output = Val;
    type Error = DErr;
    type StateOnce = BoxState<'static, S>;
    fn parse_iterative_once(self) -> BoxState<'static, S> {
        self.0.once()
    }
}
impl<S: Carrier> IterativeParser<S> for DynI<S> {
    type State<'a>
        = BoxState<'a, S>
    where
        Self: 'a;
    fn parse_iterative(&self) -> BoxState<'_, S> {
        self.0.iter()
    }
}

fn conv<S, O, E>(
    r: Result<(O, S), (E, UnknownLocation<S>)>,
    vo: &impl Fn(O) -> Val,
    ve: &impl Fn(E) -> DErr,
) -> PR<S> {
    match r {
        Ok((v, r)) => Ok((vo(v), r)),
        Err((e, r)) => Err((ve(e), r)),
    }
}

/// A real combinator whose parts are themselves erased parsers.
struct Comb<C, M, VO, VE> {
    real: C,
    mk: M,
    vo: VO,
    ve: VE,
}
impl<S, C, M, VO, VE> Obj<S> for Comb<C, M, VO, VE>
where
    S: Carrier,
    C: Parser<S> + 'static,
    M: Fn() -> C,
    VO: Fn(C::Output) -> Val + Clone + 'static,
    VE: Fn(C::Error) -> DErr + Clone + 'static,
{
    fn parse<'a>(&'a self, s: S) -> Fut<'a, PR<S>> {
        Box::pin(async move { conv(self.real.parse(s).await, &self.vo, &self.ve) })
    }
    fn once(&self, s: S) -> Fut<'static, PR<S>> {
        let c = (self.mk)();
        let (vo, ve) = (self.vo.clone(), self.ve.clone());
        Box::pin(async move { conv(c.parse_once(s).await, &vo, &ve) })
    }
}

impl<S: Carrier> DynP<S> {
    pub fn comb<C, M, VO, VE>(mk: M, vo: VO, ve: VE) -> DynP<S>
    where
        C: Parser<S> + 'static,
        M: Fn() -> C + 'static,
        VO: Fn(C::Output) -> Val + Clone + 'static,
        VE: Fn(C::Error) -> DErr + Clone + 'static,
    {
        DynP(Rc::new(Comb { real: mk(), mk, vo, ve }))
    }
}

/// notes each call of a leaf
struct Leaf<S> {
    name: String,
    inner: DynP<S>,
}
impl<S: Carrier> Obj<S> for Leaf<S> {
    fn parse<'a>(&'a self, s: S) -> Fut<'a, PR<S>> {
        log_call(self.name.clone(), s.pos());
        self.inner.0.parse(s)
    }
    fn once(&self, s: S) -> Fut<'static, PR<S>> {
        log_call(self.name.clone(), s.pos());
        self.inner.0.once(s)
    }
}

struct RefNode<S>(DynP<S>, bool);
impl<S: Carrier> Obj<S> for RefNode<S> {
    fn parse<'a>(&'a self, s: S) -> Fut<'a, PR<S>> {
        Box::pin(async move {
            let r = if self.1 {
                ParserExtension::as_ref(&self.0)
            } else {
                Ref::new(&self.0)
            };
            r.parse(s).await
        })
    }
    fn once(&self, s: S) -> Fut<'static, PR<S>> {
        let p = self.0.clone();
        Box::pin(async move {
            let r = Ref::new(&p);
            let _also = r;
            r.parse_once(s).await
        })
    }
}

// wrappers that tell the two sides of a unification apart
pub struct V0(Val);
pub struct V1(Val);
impl From<V0> for Val {
    fn from(v: V0) -> Val {
        Val::new(format!("0({})", v.0.s), v.0.h)
    }
}
impl From<V1> for Val {
    fn from(v: V1) -> Val {
        Val::new(format!("1({})", v.0.s), v.0.h + 1)
    }
}
pub struct E0(DErr);
pub struct E1(DErr);
impl ParseError for E0 {
    fn should_terminate(&self) -> bool {
        self.0.f
    }
}
impl ParseError for E1 {
    fn should_terminate(&self) -> bool {
        self.0.f
    }
}
impl From<E0> for DErr {
    fn from(e: E0) -> DErr {
        DErr::new(format!("0({})", e.0.s), e.0.f)
    }
}
impl From<E1> for DErr {
    fn from(e: E1) -> DErr {
        DErr::new(format!("1({})", e.0.s), e.0.f)
    }
}
struct Wrap<S, O, E>(DynP<S>, fn(Val) -> O, fn(DErr) -> E);
impl<S: Carrier, O, E: ParseError> ParserOnce<S> for Wrap<S, O, E> {
    type Output = O;
    type Error = E;
    async fn parse_once(self, s: S) -> ParserResult<S, Self> {
        match self.0.parse_once(s).await {
            Ok((v, r)) => Ok(((self.1)(v), r)),
            Err((e, r)) => Err(((self.2)(e), r)),
        }
    }
}
impl<S: Carrier, O, E: ParseError> Parser<S> for Wrap<S, O, E> {
    async fn parse(&self, s: S) -> ParserResult<S, Self> {
        match self.0.parse(s).await {
            Ok((v, r)) => Ok(((self.1)(v), r)),
            Err((e, r)) => Err(((self.2)(e), r)),
        }
    }
}
fn same_err(e: DErr) -> DErr {
    e
}
fn same_val(v: Val) -> Val {
    v
}

/// error of a checked mapping, with its own From
pub struct Checked(DErr);
impl ParseError for Checked {
    fn should_terminate(&self) -> bool {
        self.0.f
    }
}
impl From<DErr> for Checked {
    fn from(e: DErr) -> Checked {
        Checked(DErr::new(format!("a({})", e.s), e.f))
    }
}
fn via_map_err<S: Carrier, U: ParseError, F: Fn(DErr) -> U>(p: DynP<S>, f: F) -> MapErr<S, DynP<S>, U, F> {
    if ext() {
        p.map_err(f)
    } else {
        MapErr::new(p, f)
    }
}
fn map_val(v: Val) -> Val {
    log_map("map", v.s.clone());
    Val::new(format!("m({})", v.s), v.h + 3)
}
fn check(v: Val, acc: &[u32], f: bool) -> Result<Val, Checked> {
    log_map("chk", v.s.clone());
    if acc.contains(&v.h) {
        Ok(Val::new(format!("k({})", v.s), v.h))
    } else {
        Err(Checked(DErr::new(format!("r({})", v.s), f)))
    }
}
fn list(vs: &[Val], tail: &str) -> Val {
    let s: Vec<&str> = vs.iter().map(|v| v.s.as_str()).collect();
    Val::new(format!("[{}{tail}]", s.join(",")), vs.iter().map(|v| v.h + 1).sum())
}

// binary expressions
#[derive(Clone, Debug)]
pub struct Op {
    v: Val,
    prec: usize,
    right: bool,
}
impl Operator for Op {
    fn precedence(&self) -> usize {
        self.prec
    }
    fn associativity(&self) -> Associativity {
        if self.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
}
pub fn precedence_of_rank(r: usize) -> usize {
    [0, 1, 2, 1000, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX][r]
}
struct Ex(Val);
impl From<Val> for Ex {
    fn from(v: Val) -> Ex {
        Ex(v)
    }
}
impl From<(Ex, Op, Ex)> for Ex {
    fn from((l, o, r): (Ex, Op, Ex)) -> Ex {
        Ex(Val::new(
            format!("{{{} {} {}}}", l.0.s, o.v.s, r.0.s),
            l.0.h + 2 * o.v.h + r.0.h,
        ))
    }
}
struct OpP<S, E>(DynP<S>, Rc<Vec<(usize, bool)>>, fn(DErr) -> E);
impl<S, E> OpP<S, E> {
    fn op(&self, v: Val) -> Op {
        let (prec, right) = self.1[v.h as usize % self.1.len()];
        Op { v, prec, right }
    }
}
impl<S: Carrier, E: ParseError> ParserOnce<S> for OpP<S, E> {
    type Output = Op;
    type Error = E;
    async fn parse_once(self, s: S) -> ParserResult<S, Self> {
        match self.0.clone().parse_once(s).await {
            Ok((v, r)) => Ok((self.op(v), r)),
            Err((e, r)) => Err(((self.2)(e), r)),
        }
    }
}
impl<S: Carrier, E: ParseError> Parser<S> for OpP<S, E> {
    async fn parse(&self, s: S) -> ParserResult<S, Self> {
        match self.0.parse(s).await {
            Ok((v, r)) => Ok((self.op(v), r)),
            Err((e, r)) => Err(((self.2)(e), r)),
        }
    }
}

async fn eat<S: Carrier>(s: S, n: usize, out: u8, id: u64) -> PR<S> {
    let (k, s) = s.adv_most(n).await;
    match out {
        0 if k == n => done(Val::new(format!("e{id}"), n as u32), s),
        0 => fail(DErr::new(format!("x{id}"), false), s),
        _ => fail(DErr::new(format!("x{id}"), out == 2), s),
    }
}

// iterations
struct IComb<C, M> {
    real: C,
    mk: M,
}
struct St<P, O, E>(P, fn(O) -> Val, fn(E) -> DErr);
impl<S: Carrier, P: IterativeParserState<S>> DState<S> for St<P, P::Output, P::Error> {
    fn next<'a>(&'a mut self, s: S) -> Fut<'a, PR<S, Option<Val>>> {
        Box::pin(async move {
            match self.0.parse_next(s).await {
                Ok((v, r)) => Ok((v.map(self.1), r)),
                Err((e, r)) => Err(((self.2)(e), r)),
            }
        })
    }
}
impl<S, C, M> IObj<S> for IComb<C, M>
where
    S: Carrier,
    C: IterativeParser<S> + 'static,
    C::Error: Fault,
    C::Output: Item,
    M: Fn() -> C,
{
    fn iter<'a>(&'a self) -> BoxState<'a, S> {
        BoxState(Box::new(St(self.real.parse_iterative(), Item::val, Fault::err)))
    }
    fn once(&self) -> BoxState<'static, S> {
        BoxState(Box::new(St((self.mk)().parse_iterative_once(), Item::val, Fault::err)))
    }
}
fn icomb<S, C>(mk: impl Fn() -> C + 'static) -> DynI<S>
where
    S: Carrier,
    C: IterativeParser<S> + 'static,
    C::Error: Fault,
    C::Output: Item,
{
    DynI(Rc::new(IComb { real: mk(), mk }))
}
/// an iteration whose error type is `Checked`
struct IChecked<C, M> {
    real: C,
    mk: M,
}
impl<S, C, M> IObj<S> for IChecked<C, M>
where
    S: Carrier,
    C: IterativeParser<S, Error = Checked> + 'static,
    C::Output: Item,
    M: Fn() -> C,
{
    fn iter<'a>(&'a self) -> BoxState<'a, S> {
        BoxState(Box::new(St(self.real.parse_iterative(), Item::val, |e: Checked| {
            DErr::new(e.0.s.clone(), e.should_terminate())
        })))
    }
    fn once(&self) -> BoxState<'static, S> {
        BoxState(Box::new(St((self.mk)().parse_iterative_once(), Item::val, |e: Checked| {
            DErr::new(e.0.s.clone(), e.should_terminate())
        })))
    }
}
fn ichecked<S, C>(mk: impl Fn() -> C + 'static) -> DynI<S>
where
    S: Carrier,
    C: IterativeParser<S, Error = Checked> + 'static,
    C::Output: Item,
{
    DynI(Rc::new(IChecked { real: mk(), mk }))
}

#[derive(Clone)]
struct Script(Rc<Vec<(usize, u8)>>);
struct ScriptState(Script, usize);
impl<S: Carrier> DState<S> for ScriptState {
    fn next<'a>(&'a mut self, s: S) -> Fut<'a, PR<S, Option<Val>>> {
        Box::pin(async move {
            let i = self.1;
            log_call(format!("s{i}"), s.pos());
            let Some(&(w, o)) = self.0 .0.get(i - 1) else {
                return done(None, s);
            };
            self.1 += 1;
            let (_, s) = s.adv_most(w).await;
            match o {
                0 => done(Some(Val::new(format!("i{i}"), i as u32)), s),
                1 => done(None, s),
                _ => fail(DErr::new(format!("y{i}"), o == 3), s),
            }
        })
    }
}
impl<S: Carrier> IObj<S> for Script {
    fn iter<'a>(&'a self) -> BoxState<'a, S> {
        BoxState(Box::new(ScriptState(self.clone(), 1)))
    }
    fn once(&self) -> BoxState<'static, S> {
        BoxState(Box::new(ScriptState(self.clone(), 1)))
    }
}

struct IRef<S: 'static>(&'static DynI<S>);
impl<S: Carrier> IObj<S> for IRef<S> {
    fn iter<'a>(&'a self) -> BoxState<'a, S> {
        let r: &'a &'static DynI<S> = &self.0;
        BoxState(Box::new(St(r.parse_iterative(), same_val, same_err)))
    }
    fn once(&self) -> BoxState<'static, S> {
        BoxState(Box::new(St(self.0.parse_iterative_once(), same_val, same_err)))
    }
}

async fn drive<S: Carrier>(mut st: BoxState<'_, S>, n: usize, s: S) -> PR<S> {
    let mut vs = vec![];
    let mut s = s;
    for _ in 0..n {
        match st.parse_next(s).await {
            Ok((Some(v), r)) => {
                vs.push(Val::new(format!("I({})@{}", v.s, r.pos()), v.h));
                s = r;
            }
            Ok((None, r)) => {
                vs.push(Val::new(format!("E@{}", r.pos()), 0));
                s = r;
            }
            Err(e) => return Err(e),
        }
    }
    done(list(&vs, ""), s)
}
struct Drive<S>(DynI<S>, usize);
impl<S: Carrier> Obj<S> for Drive<S> {
    fn parse<'a>(&'a self, s: S) -> Fut<'a, PR<S>> {
        Box::pin(async move { drive(self.0.parse_iterative(), self.1, s).await })
    }
    fn once(&self, s: S) -> Fut<'static, PR<S>> {
        let (p, n) = (self.0.clone(), self.1);
        Box::pin(async move { drive(p.parse_iterative_once(), n, s).await })
    }
}

// ---- parts whose values are of other types ---------------------------------------------------
/// a type that values can be of
pub trait Item: 'static {
    fn of(v: Val) -> Self;
    fn val(self) -> Val;
}
impl Item for Val {
    fn of(v: Val) -> Val {
        v
    }
    fn val(self) -> Val {
        self
    }
}
/// nothing at all
impl Item for () {
    fn of(_: Val) {}
    fn val(self) -> Val {
        Val::new("u", 0)
    }
}
/// large and strongly aligned
#[repr(align(64))]
pub struct Big {
    v: Val,
    pad: [u8; 200],
}
impl Item for Big {
    fn of(v: Val) -> Big {
        Big { v, pad: [0xa5; 200] }
    }
    fn val(self) -> Val {
        assert!(self.pad.iter().all(|b| *b == 0xa5) && (&self as *const Big as usize) % 64 == 0, "damaged value");
        Val::new(format!("b({})", self.v.s), self.v.h)
    }
}
/// a type that errors can be of
pub trait Fault: ParseError + Sized + 'static {
    fn of(e: DErr) -> Self;
    fn err(self) -> DErr;
}
impl Fault for DErr {
    fn of(e: DErr) -> DErr {
        e
    }
    fn err(self) -> DErr {
        self
    }
}
/// nothing at all
impl Fault for Miss<()> {
    fn of(_: DErr) -> Self {
        Miss(())
    }
    fn err(self) -> DErr {
        DErr::new("z", self.should_terminate())
    }
}
impl Fault for Fatal<()> {
    fn of(_: DErr) -> Self {
        Fatal(())
    }
    fn err(self) -> DErr {
        DErr::new("Z", self.should_terminate())
    }
}
/// large and strongly aligned
#[repr(align(64))]
pub struct BigErr {
    e: DErr,
    pad: [u8; 300],
}
impl ParseError for BigErr {
    fn should_terminate(&self) -> bool {
        self.e.f
    }
}
impl Fault for BigErr {
    fn of(e: DErr) -> Self {
        BigErr { e, pad: [0x5a; 300] }
    }
    fn err(self) -> DErr {
        assert!(self.pad.iter().all(|b| *b == 0x5a) && (&self as *const BigErr as usize) % 64 == 0, "damaged error");
        let f = self.should_terminate();
        DErr::new(format!("b({})", self.e.s), f)
    }
}
macro_rules! checked_from {
    ($($t:ty)*) => {$(impl From<$t> for Checked {
        fn from(e: $t) -> Checked {
            Checked::from(e.err())
        }
    })*}
}
checked_from!(Miss<()> Fatal<()> BigErr);

type Ph<T, E> = std::marker::PhantomData<fn() -> (T, E)>;
struct AsT<S, T, E>(DynP<S>, Ph<T, E>);
fn as_t<S, T, E>(p: &DynP<S>) -> AsT<S, T, E> {
    AsT(p.clone(), std::marker::PhantomData)
}
fn typed_res<S, T: Item, E: Fault>(r: PR<S>) -> ParseResult<S, T, E> {
    match r {
        Ok((v, r)) => Ok((T::of(v), r)),
        Err((e, r)) => Err((E::of(e), r)),
    }
}
impl<S: Carrier, T: Item, E: Fault> ParserOnce<S> for AsT<S, T, E> {
    type Output = T;
    type Error = E;
    async fn parse_once(self, s: S) -> ParserResult<S, Self> {
        typed_res(self.0.parse_once(s).await)
    }
}
impl<S: Carrier, T: Item, E: Fault> Parser<S> for AsT<S, T, E> {
    async fn parse(&self, s: S) -> ParserResult<S, Self> {
        typed_res(self.0.parse(s).await)
    }
}
struct IAsT<S, T, E>(DynI<S>, Ph<T, E>);
fn ias_t<S, T, E>(p: &DynI<S>) -> IAsT<S, T, E> {
    IAsT(p.clone(), std::marker::PhantomData)
}
struct IAsTState<P, T, E>(P, Ph<T, E>);
impl<S: Carrier, P: IterativeParserState<S, Output = Val, Error = DErr>, T: Item, E: Fault> IterativeParserState<S> for IAsTState<P, T, E> {
    type Output = T;
    type Error = E;
    async fn parse_next(&mut self, s: S) -> ParseResult<S, Option<T>, E> {
        match self.0.parse_next(s).await {
            Ok((v, r)) => Ok((v.map(T::of), r)),
            Err((e, r)) => Err((E::of(e), r)),
        }
    }
}
impl<S: Carrier, T: Item, E: Fault> IterativeParserOnce<S> for IAsT<S, T, E> {
    type Output = T;
    type Error = E;
    type StateOnce = IAsTState<BoxState<'static, S>, T, E>;
    fn parse_iterative_once(self) -> Self::StateOnce {
        IAsTState(self.0.parse_iterative_once(), std::marker::PhantomData)
    }
}
impl<S: Carrier, T: Item, E: Fault> IterativeParser<S> for IAsT<S, T, E> {
    type State<'a>
        = IAsTState<BoxState<'a, S>, T, E>
    where
        Self: 'a;
    fn parse_iterative(&self) -> Self::State<'_> {
        IAsTState(self.0.parse_iterative(), std::marker::PhantomData)
    }
}

fn listed<T: Item>(vs: Vec<T>, tail: &str) -> Val {
    let vs: Vec<Val> = vs.into_iter().map(T::val).collect();
    list(&vs, tail)
}
fn fold_val(acc: Val, v: Val) -> Val {
    log_map("fold", v.s.clone());
    Val::new(format!("({}{})", acc.s, v.s), 2 * acc.h + v.h)
}
fn scan_val(acc: &mut u32, v: Val) -> Val {
    log_map("scan", format!("{} {}", acc, v.s));
    *acc = (2 * *acc + v.h + 1) % MOD;
    Val::new(format!("s{}({})", acc, v.s), *acc)
}

/// combinators whose part(s) yield values of type T
fn one<S: Carrier, T: Item, E: Fault>(n: &Value, inner: &Value) -> DynP<S>
where
    Checked: From<E>,
{
    let k = n["k"].as_str().unwrap();
    match k {
        "map" => {
            let p = build::<S>(inner);
            DynP::comb(move || {
                let g: fn(T) -> Val = |t| map_val(t.val());
                Map::new(as_t::<S, T, E>(&p), g)
            }, same_val, E::err)
        }
        "andthen" => {
            let (p, acc, f) = (build::<S>(inner), nums(n, "acc"), n["f"].as_bool().unwrap());
            DynP::comb(
                move || {
                    let acc = acc.clone();
                    AndThen::new(as_t::<S, T, E>(&p), move |t: T| check(t.val(), &acc, f))
                },
                same_val,
                |e: Checked| DErr::new(e.0.s.clone(), e.should_terminate()),
            )
        }
        "opt" => {
            let p = build::<S>(inner);
            DynP::comb(
                move || Optional::new(as_t::<S, T, E>(&p)),
                |r: Result<T, E>| match r {
                    Ok(v) => {
                        let v = v.val();
                        Val::new(format!("S({})", v.s), v.h)
                    }
                    Err(e) => Val::new(format!("N({})", e.err().s), 6),
                },
                E::err,
            )
        }
        "rep" => {
            let p = build::<S>(inner);
            DynP::comb(
                move || Repeat::new(as_t::<S, T, E>(&p)),
                |(vs, e): (Vec<T>, E)| listed(vs, &format!(";{}", e.err().s)),
                E::err,
            )
        }
        "boxed" => {
            let p = build::<S>(inner);
            DynP::comb(move || Boxed::new(as_t::<S, T, E>(&p)), T::val, E::err)
        }
        "collect" => {
            let p = build_iter::<S>(inner);
            DynP::comb(
                move || Collect::<S, _, Vec<T>>::new(ias_t::<S, T, E>(&p)),
                |(vs, e): (Vec<T>, Option<E>)| listed(vs, &e.map(|e| format!(";{}", e.err().s)).unwrap_or_default()),
                E::err,
            )
        }
        "fold" => {
            let p = build_iter::<S>(inner);
            DynP::comb(
                move || Fold::new(ias_t::<S, T, E>(&p), Val::new("z", 1), |acc: Val, t: T| fold_val(acc, t.val())),
                same_val,
                E::err,
            )
        }
        _ => unreachable!(),
    }
}
/// combinators of two parts
fn two<S: Carrier, T: Item, E: Fault, U: Item, F: Fault>(n: &Value, x: &Value, y: &Value) -> DynP<S> {
    let (p, q) = (build::<S>(x), build::<S>(y));
    match n["k"].as_str().unwrap() {
        "join" => DynP::comb(
            move || Join::new(as_t::<S, T, E>(&p), as_t::<S, U, F>(&q)),
            |(x, y): (T, U)| {
                let (x, y) = (x.val(), y.val());
                Val::new(format!("({},{})", x.s, y.s), 2 * x.h + y.h)
            },
            either_err::<E, F>,
        ),
        "or" => DynP::comb(
            move || Or::new(as_t::<S, T, E>(&p), as_t::<S, U, F>(&q)),
            |e: Either<T, U>| match e {
                Either::First(v) => {
                    let v = v.val();
                    Val::new(format!("F({})", v.s), v.h)
                }
                Either::Last(v) => {
                    let v = v.val();
                    Val::new(format!("L({})", v.s), v.h + 1)
                }
            },
            both_err::<E, F>,
        ),
        "unify" => DynP::comb(
            // values as they come
            move || Unify::<S, V0, V1, Val, _>::new(Or::new(Wrap(p.clone(), V0, E::of), Wrap(q.clone(), V1, F::of))),
            same_val,
            both_err::<E, F>,
        ),
        _ => {
            let ops = table(n);
            DynP::comb(
                move || BinExprParser::<S, _, _, Ex>::new(Wrap(p.clone(), same_val, E::of), OpP(q.clone(), ops.clone(), F::of)),
                bin_shown(n),
                either_err::<F, E>,
            )
        }
    }
}
fn ione<S: Carrier, T: Item, E: Fault>(n: &Value, inner: &Value) -> DynI<S>
where
    Checked: From<E>,
{
    match n["k"].as_str().unwrap() {
        "irep" => {
            let p = build::<S>(inner);
            icomb(move || Repeat::new(as_t::<S, T, E>(&p)))
        }
        "iopt" => {
            let p = build::<S>(inner);
            icomb(move || Optional::new(as_t::<S, T, E>(&p)))
        }
        "each" => {
            let p = build_iter::<S>(inner);
            icomb(move || MapEach::new(ias_t::<S, T, E>(&p), |t: T| map_val(t.val())))
        }
        "tryeach" => {
            let (p, acc, f) = (build_iter::<S>(inner), nums(n, "acc"), n["f"].as_bool().unwrap());
            ichecked(move || {
                let acc = acc.clone();
                TryMapEach::new::<Val, Checked>(ias_t::<S, T, E>(&p), move |t: T| check(t.val(), &acc, f))
            })
        }
        "mwhile" => {
            let (p, acc) = (build_iter::<S>(inner), nums(n, "acc"));
            icomb(move || {
                let acc = acc.clone();
                MapWhile::new(ias_t::<S, T, E>(&p), move |t: T| check(t.val(), &acc, false).ok())
            })
        }
        "scan" => {
            let (p, n0) = (build_iter::<S>(inner), num(n, "n") as u32);
            icomb(move || Scan::new(ias_t::<S, T, E>(&p), n0, |a: &mut u32, t: T| scan_val(a, t.val())))
        }
        "take" => {
            let (p, c) = (build_iter::<S>(inner), num(n, "n"));
            icomb(move || Take::new(ias_t::<S, T, E>(&p), c))
        }
        _ => unreachable!(),
    }
}
/// mappings to values of type T
fn out<S: Carrier, T: Item>(n: &Value) -> DynP<S> {
    let p = build::<S>(&n["a"]);
    if n["k"] == "map" {
        let g: fn(Val) -> T = |v| T::of(map_val(v));
        return DynP::comb(move || Map::new(p.clone(), g), T::val, same_err);
    }
    let (acc, f) = (nums(n, "acc"), n["f"].as_bool().unwrap());
    DynP::comb(
        move || {
            let acc = acc.clone();
            AndThen::new(p.clone(), move |v: Val| check(v, &acc, f).map(T::of))
        },
        T::val,
        |e: Checked| DErr::new(e.0.s.clone(), e.should_terminate()),
    )
}
fn iout<S: Carrier, T: Item>(n: &Value) -> DynI<S> {
    let (p, acc) = (build_iter::<S>(&n["a"]), nums(n, "acc"));
    match n["k"].as_str().unwrap() {
        "each" => icomb(move || MapEach::new(p.clone(), |v: Val| T::of(map_val(v)))),
        "tryeach" => {
            let f = n["f"].as_bool().unwrap();
            ichecked(move || {
                let acc = acc.clone();
                TryMapEach::new::<T, Checked>(p.clone(), move |v: Val| check(v, &acc, f).map(T::of))
            })
        }
        "mwhile" => icomb(move || {
            let acc = acc.clone();
            MapWhile::new(p.clone(), move |v: Val| check(v, &acc, false).ok().map(T::of))
        }),
        _ => {
            let n0 = num(n, "n") as u32;
            icomb(move || Scan::new(p.clone(), n0, |a: &mut u32, v: Val| T::of(scan_val(a, v))))
        }
    }
}
fn mapping(n: &Value) -> bool {
    matches!(n["k"].as_str(), Some("map" | "andthen" | "each" | "tryeach" | "mwhile" | "scan"))
}
/// of what type a part's values (0 as they come, 1 nothing, 2 large) and errors (0 as they come, 1 nothing,
/// 2 nothing and terminating, 3 large) are, and the part without that
fn of_type(n: &Value) -> ((u8, u8), &Value) {
    let (t, m) = match n["k"].as_str() {
        _ if mapping(&n["a"]) => return ((0, 0), n),
        Some("unit" | "iunit") => (1, &n["a"]),
        Some("big" | "ibig") => (2, &n["a"]),
        _ => (0, n),
    };
    if m["a"]["k"] == "maperr" {
        return ((t, 0), m);
    }
    match (m["k"].as_str(), m["cls"].as_str()) {
        (Some("etype" | "ietype"), Some("zm")) => ((t, 1), &m["a"]),
        (Some("etype" | "ietype"), Some("zf")) => ((t, 2), &m["a"]),
        (Some("etype" | "ietype"), _) => ((t, 3), &m["a"]),
        _ => ((t, 0), m),
    }
}
type Zm = Miss<()>;
type Zf = Fatal<()>;
macro_rules! with_type {
    ($ty:expr, $f:ident, $($arg:expr),*) => {
        match $ty {
            (1, 0) => Some($f::<S, (), DErr>($($arg),*)),
            (2, 0) => Some($f::<S, Big, DErr>($($arg),*)),
            (0, 1) => Some($f::<S, Val, Zm>($($arg),*)),
            (0, 2) => Some($f::<S, Val, Zf>($($arg),*)),
            (0, 3) => Some($f::<S, Val, BigErr>($($arg),*)),
            (1, 1) => Some($f::<S, (), Zm>($($arg),*)),
            (1, 2) => Some($f::<S, (), Zf>($($arg),*)),
            (2, 3) => Some($f::<S, Big, BigErr>($($arg),*)),
            _ => None,
        }
    };
}
/// the combinator `n` made over parts of other types, if that is what `n` asks for
pub fn typed<S: Carrier>(n: &Value) -> Option<DynP<S>> {
    let k = n["k"].as_str().unwrap();
    match k {
        "unit" if mapping(&n["a"]) => Some(out::<S, ()>(&n["a"])),
        "big" if mapping(&n["a"]) => Some(out::<S, Big>(&n["a"])),
        "etype" if n["a"]["k"] == "maperr" => Some(match n["cls"].as_str().unwrap() {
            "zm" => eout::<S, Zm>(&n["a"]),
            "zf" => eout::<S, Zf>(&n["a"]),
            _ => eout::<S, BigErr>(&n["a"]),
        }),
        "map" | "andthen" | "opt" | "rep" | "boxed" | "collect" | "fold" => {
            let (ty, inner) = of_type(&n["a"]);
            with_type!(ty, one, n, inner)
        }
        "join" | "or" | "unify" | "bin" => {
            let ((t, x), (u, y)) = (of_type(&n["a"]), of_type(&n["b"]));
            if matches!(k, "unify" | "bin") && (t.0 > 0 || u.0 > 0) {
                return None;
            }
            match (t, u) {
                ((1, 0), (1, 0)) => Some(two::<S, (), DErr, (), DErr>(n, x, y)),
                ((1, 0), (0, 0)) => Some(two::<S, (), DErr, Val, DErr>(n, x, y)),
                ((0, 0), (1, 0)) => Some(two::<S, Val, DErr, (), DErr>(n, x, y)),
                ((2, 0), (1, 0)) => Some(two::<S, Big, DErr, (), DErr>(n, x, y)),
                ((1, 0), (2, 0)) => Some(two::<S, (), DErr, Big, DErr>(n, x, y)),
                ((0, 1), (0, 0)) => Some(two::<S, Val, Zm, Val, DErr>(n, x, y)),
                ((0, 0), (0, 1)) => Some(two::<S, Val, DErr, Val, Zm>(n, x, y)),
                ((0, 1), (0, 1)) => Some(two::<S, Val, Zm, Val, Zm>(n, x, y)),
                ((0, 1), (0, 2)) => Some(two::<S, Val, Zm, Val, Zf>(n, x, y)),
                ((0, 2), (0, 0)) => Some(two::<S, Val, Zf, Val, DErr>(n, x, y)),
                ((0, 0), (0, 2)) => Some(two::<S, Val, DErr, Val, Zf>(n, x, y)),
                ((0, 3), (0, 0)) => Some(two::<S, Val, BigErr, Val, DErr>(n, x, y)),
                ((0, 0), (0, 3)) => Some(two::<S, Val, DErr, Val, BigErr>(n, x, y)),
                ((0, 3), (0, 1)) => Some(two::<S, Val, BigErr, Val, Zm>(n, x, y)),
                ((1, 1), (0, 0)) => Some(two::<S, (), Zm, Val, DErr>(n, x, y)),
                ((1, 1), (1, 1)) => Some(two::<S, (), Zm, (), Zm>(n, x, y)),
                _ => None,
            }
        }
        _ => None,
    }
}
pub fn typed_iter<S: Carrier>(n: &Value) -> Option<DynI<S>> {
    match n["k"].as_str().unwrap() {
        "iunit" if mapping(&n["a"]) => Some(iout::<S, ()>(&n["a"])),
        "ibig" if mapping(&n["a"]) => Some(iout::<S, Big>(&n["a"])),
        "irep" | "iopt" | "each" | "tryeach" | "mwhile" | "scan" | "take" => {
            let (ty, inner) = of_type(&n["a"]);
            with_type!(ty, ione, n, inner)
        }
        _ => None,
    }
}
/// a mapping of errors to errors of type E
fn eout<S: Carrier, E: Fault>(n: &Value) -> DynP<S> {
    let p = build::<S>(&n["a"]);
    let cls = n["cls"].as_str().unwrap().to_string();
    DynP::comb(
        move || {
            let cls = cls.clone();
            via_map_err(p.clone(), move |e: DErr| {
                log_map("err", e.s.clone());
                E::of(match cls.as_str() {
                    "fatal" => DErr::new(format!("Fatal({})", e.s), true),
                    "miss" => DErr::new(format!("Miss({})", e.s), false),
                    "some" => DErr::new(format!("Some({})", e.s), e.f),
                    "none" => DErr::new("None", false),
                    _ => DErr::new(format!("Ref({})", e.s), e.f),
                })
            })
        },
        same_val,
        E::err,
    )
}

fn num(n: &Value, k: &str) -> usize {
    n[k].as_u64().unwrap_or_else(|| panic!("bad tree: {k} in {n}")) as usize
}
fn nums(n: &Value, k: &str) -> Vec<u32> {
    n[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default()
}

pub fn is_iter(k: &str) -> bool {
    matches!(k, "irep" | "iopt" | "iscript" | "iref" | "each" | "tryeach" | "mwhile" | "scan" | "take" | "iunit" | "ibig" | "ietype")
}

pub fn build<S: Carrier>(n: &Value) -> DynP<S> {
    let k = n["k"].as_str().expect("kind");
    let a = || build::<S>(&n["a"]);
    let b = || build::<S>(&n["b"]);
    let ident = |v: Val| v;
    let leaf = |name: String, inner: DynP<S>| DynP(Rc::new(Leaf { name, inner }) as Rc<dyn Obj<S>>);
    if let Some(p) = S::typed(n) {
        return p;
    }
    match k {
        "unit" => {
            let p = a();
            DynP::comb(move || as_t::<S, (), DErr>(&p), <() as Item>::val, same_err)
        }
        "big" => {
            let p = a();
            DynP::comb(move || as_t::<S, Big, DErr>(&p), Big::val, same_err)
        }
        "etype" => {
            let p = a();
            match n["cls"].as_str().unwrap() {
                "zm" => DynP::comb(move || as_t::<S, Val, Zm>(&p), ident, Zm::err),
                "zf" => DynP::comb(move || as_t::<S, Val, Zf>(&p), ident, Zf::err),
                _ => DynP::comb(move || as_t::<S, Val, BigErr>(&p), ident, BigErr::err),
            }
        }
        "any" => leaf("any".into(), S::leaf_any()),
        "the" => leaf(format!("the{}", num(n, "c")), S::leaf_the(num(n, "c") as u32)),
        "atom" => {
            let w = nums(n, "w");
            leaf(format!("atom{}", w.len()), S::leaf_atom(&w, num_or(n, "form", 0)))
        }
        "pure" => leaf(
            "pure".into(),
            DynP::comb(
                || |s: S| async move { done::<S, Val, DErr>(Val::new("p", 0), s) },
                ident,
                same_err,
            ),
        ),
        "eat" => {
            let (m, id) = (num(n, "n"), num(n, "id") as u64);
            let out = match n["out"].as_str().unwrap() {
                "ok" => 0,
                "miss" => 1,
                _ => 2,
            };
            leaf(
                format!("eat{id}"),
                DynP::comb(move || move |s: S| eat(s, m, out, id), ident, same_err),
            )
        }
        "ref" => DynP(Rc::new(RefNode(a(), ext()))),
        "boxed" => {
            let p = a();
            DynP::comb(move || if ext() { p.clone().boxed() } else { Boxed::new(p.clone()) }, ident, same_err)
        }
        "map" => {
            let p = a();
            DynP::comb(move || if ext() { p.clone().map(map_val) } else { Map::new(p.clone(), map_val) }, ident, same_err)
        }
        "maperr" => {
            let p = a();
            fn note(e: &DErr) {
                log_map("err", e.s.clone());
            }
            match n["cls"].as_str().unwrap() {
                "fatal" => DynP::comb(
                    move || via_map_err(p.clone(), |e: DErr| { note(&e); Fatal(e) }),
                    ident,
                    |e: Fatal<DErr>| DErr::new(format!("Fatal({})", e.0.s), e.should_terminate()),
                ),
                "miss" => DynP::comb(
                    move || via_map_err(p.clone(), |e: DErr| { note(&e); Miss(e) }),
                    ident,
                    |e: Miss<DErr>| DErr::new(format!("Miss({})", e.0.s), e.should_terminate()),
                ),
                "some" => DynP::comb(
                    move || via_map_err(p.clone(), |e: DErr| { note(&e); Some(e) }),
                    ident,
                    |e: Option<DErr>| {
                        let f = e.should_terminate();
                        DErr::new(e.map(|e| format!("Some({})", e.s)).unwrap_or("None".into()), f)
                    },
                ),
                "none" => DynP::comb(
                    move || via_map_err(p.clone(), |e: DErr| { note(&e); None::<DErr> }),
                    ident,
                    |e: Option<DErr>| {
                        let f = e.should_terminate();
                        DErr::new(e.map(|e| format!("Some({})", e.s)).unwrap_or("None".into()), f)
                    },
                ),
                _ => DynP::comb(
                    move || via_map_err(p.clone(), |e: DErr| { note(&e); &*Box::leak(Box::new(e)) }),
                    ident,
                    |e: &'static DErr| DErr::new(format!("Ref({})", e.s), (&e).should_terminate()),
                ),
            }
        }
        "andthen" => {
            let p = a();
            let acc = nums(n, "acc");
            let f = n["f"].as_bool().unwrap();
            DynP::comb(
                move || {
                    let acc = acc.clone();
                    let g = move |v: Val| check(v, &acc, f);
                    if ext() { p.clone().and_then(g) } else { AndThen::new(p.clone(), g) }
                },
                ident,
                |e: Checked| DErr::new(e.0.s.clone(), e.should_terminate()),
            )
        }
        "join" => {
            let (p, q) = (a(), b());
            DynP::comb(
                move || if ext() { p.clone().join(q.clone()) } else { Join::new(p.clone(), q.clone()) },
                |(x, y): (Val, Val)| Val::new(format!("({},{})", x.s, y.s), 2 * x.h + y.h),
                either_err,
            )
        }
        "unifyerr" => {
            let (p, q) = (a(), b());
            DynP::comb(
                move || {
                    let both = Join::new(Wrap(p.clone(), same_val, E0), Wrap(q.clone(), same_val, E1));
                    if ext() {
                        ParserExtension::<S>::unify_err(both)
                    } else {
                        UnifyErr::<S, E0, E1, DErr, _>::new(both)
                    }
                },
                |(x, y): (Val, Val)| Val::new(format!("({},{})", x.s, y.s), 2 * x.h + y.h),
                |e: DErr| DErr::new(e.s.clone(), e.should_terminate()),
            )
        }
        "or" => {
            let (p, q) = (a(), b());
            DynP::comb(
                move || if ext() { p.clone().or(q.clone()) } else { Or::new(p.clone(), q.clone()) },
                |e: Either<Val, Val>| match e {
                    Either::First(v) => Val::new(format!("F({})", v.s), v.h),
                    Either::Last(v) => Val::new(format!("L({})", v.s), v.h + 1),
                },
                both_err,
            )
        }
        "unify" => {
            let (p, q) = (a(), b());
            DynP::comb(
                move || {
                    let or = Or::new(Wrap(p.clone(), V0, same_err), Wrap(q.clone(), V1, same_err));
                    if ext() {
                        ParserExtension::<S>::unify(or)
                    } else {
                        Unify::<S, V0, V1, Val, _>::new(or)
                    }
                },
                ident,
                both_err,
            )
        }
        "opt" => {
            let p = a();
            DynP::comb(
                move || if ext() { p.clone().optional() } else { Optional::new(p.clone()) },
                |r: Result<Val, DErr>| match r {
                    Ok(v) => Val::new(format!("S({})", v.s), v.h),
                    Err(e) => Val::new(format!("N({})", e.s), 6),
                },
                |e: DErr| DErr::new(e.s.clone(), e.should_terminate()),
            )
        }
        "rep" => {
            let p = a();
            DynP::comb(
                move || if ext() { p.clone().repeat() } else { Repeat::new(p.clone()) },
                |(vs, e): (Vec<Val>, DErr)| list(&vs, &format!(";{}", e.s)),
                same_err,
            )
        }
        "bin" => {
            let (p, q) = (a(), b());
            let ops = table(n);
            DynP::comb(
                move || BinExprParser::<S, _, _, Ex>::new(p.clone(), OpP(q.clone(), ops.clone(), same_err as fn(DErr) -> DErr)),
                bin_shown(n),
                either_err,
            )
        }
        "collect" => {
            let p = build_iter::<S>(&n["a"]);
            DynP::comb(
                move || if ext() { p.clone().collect::<Vec<Val>>() } else { Collect::<S, _, Vec<Val>>::new(p.clone()) },
                |(vs, e): (Vec<Val>, Option<DErr>)| {
                    list(&vs, &e.map(|e| format!(";{}", e.s)).unwrap_or_default())
                },
                same_err,
            )
        }
        "fold" => {
            let p = build_iter::<S>(&n["a"]);
            DynP::comb(
                move || {
                    let g = fold_val;
                    if ext() {
                        p.clone().fold(Val::new("z", 1), g)
                    } else {
                        Fold::new(p.clone(), Val::new("z", 1), g)
                    }
                },
                ident,
                same_err,
            )
        }
        "drive" => DynP(Rc::new(Drive(build_iter::<S>(&n["a"]), num(n, "n")))),
        _ => panic!("unknown kind {k}"),
    }
}
fn table(n: &Value) -> Rc<Vec<(usize, bool)>> {
    let ops = n["ops"].as_array().unwrap();
    Rc::new(ops.iter().map(|o| (precedence_of_rank(num(o, "r")), o["right"].as_bool().unwrap())).collect())
}
fn bin_shown<E: Fault, F: Fault>(n: &Value) -> impl Fn((Ex, Either<E, F>)) -> Val + Clone + 'static {
    let show = match n["show"].as_str().unwrap() {
        "both" => 0,
        "tree" => 1,
        _ => 2,
    };
    move |(e, r): (Ex, Either<E, F>)| {
        let (mut t, mut w) = (e.0.s, either_err(r).s);
        match show {
            0 => {}
            1 => w.clear(),
            _ => t.clear(),
        }
        Val::new(format!("X({t};{w})"), e.0.h)
    }
}
fn num_or(n: &Value, k: &str, d: usize) -> usize {
    n[k].as_u64().map(|x| x as usize).unwrap_or(d)
}
fn either_err<E: Fault, F: Fault>(e: Either<E, F>) -> DErr {
    let f = e.should_terminate();
    match e {
        Either::First(e) => DErr::new(format!("f({})", e.err().s), f),
        Either::Last(e) => DErr::new(format!("l({})", e.err().s), f),
    }
}
fn both_err<E: Fault, F: Fault>(e: EitherBoth<E, F>) -> DErr {
    let f = e.should_terminate();
    match e {
        EitherBoth::First(e) => DErr::new(format!("f({})", e.err().s), f),
        EitherBoth::Last(e) => DErr::new(format!("l({})", e.err().s), f),
        EitherBoth::Both(e, g) => DErr::new(format!("B({},{})", e.err().s, g.err().s), f),
    }
}

pub fn build_iter<S: Carrier>(n: &Value) -> DynI<S> {
    let k = n["k"].as_str().expect("kind");
    let a = || build_iter::<S>(&n["a"]);
    if let Some(p) = S::typed_iter(n) {
        return p;
    }
    match k {
        "iunit" => {
            let p = a();
            icomb(move || ias_t::<S, (), DErr>(&p))
        }
        "ibig" => {
            let p = a();
            icomb(move || ias_t::<S, Big, DErr>(&p))
        }
        "ietype" => {
            let p = a();
            match n["cls"].as_str().unwrap() {
                "zm" => icomb(move || ias_t::<S, Val, Zm>(&p)),
                "zf" => icomb(move || ias_t::<S, Val, Zf>(&p)),
                _ => icomb(move || ias_t::<S, Val, BigErr>(&p)),
            }
        }
        "irep" => {
            let p = build::<S>(&n["a"]);
            icomb(move || if ext() { p.clone().repeat() } else { Repeat::new(p.clone()) })
        }
        "iopt" => {
            let p = build::<S>(&n["a"]);
            icomb(move || if ext() { p.clone().optional() } else { Optional::new(p.clone()) })
        }
        "iscript" => {
            let sc = n["sc"].as_array().map(|x| x.as_slice()).unwrap_or(&[]);
            let sc = sc
                .iter()
                .map(|e| {
                    let o = match e["o"].as_str().unwrap() {
                        "item" => 0,
                        "end" => 1,
                        "miss" => 2,
                        _ => 3,
                    };
                    (num(e, "w"), o)
                })
                .collect();
            DynI(Rc::new(Script(Rc::new(sc))))
        }
        "iref" => DynI(Rc::new(IRef(Box::leak(Box::new(a()))))),
        "each" => {
            let p = a();
            icomb(move || if ext() { p.clone().map_each(map_val) } else { MapEach::new(p.clone(), map_val) })
        }
        "tryeach" => {
            let p = a();
            let acc = nums(n, "acc");
            let f = n["f"].as_bool().unwrap();
            ichecked(move || {
                let acc = acc.clone();
                let g = move |v: Val| check(v, &acc, f);
                if ext() { p.clone().try_map_each(g) } else { TryMapEach::new::<Val, Checked>(p.clone(), g) }
            })
        }
        "mwhile" => {
            let p = a();
            let acc = nums(n, "acc");
            icomb(move || {
                let acc = acc.clone();
                let g = move |v: Val| check(v, &acc, false).ok();
                if ext() { p.clone().map_while(g) } else { MapWhile::new(p.clone(), g) }
            })
        }
        "scan" => {
            let p = a();
            let n0 = num(n, "n") as u32;
            icomb(move || {
                let g = scan_val;
                if ext() { p.clone().scan(n0, g) } else { Scan::new(p.clone(), n0, g) }
            })
        }
        "take" => {
            let p = a();
            let c = num(n, "n");
            icomb(move || if ext() { IterativeParserExtension::take(p.clone(), c) } else { Take::new(p.clone(), c) })
        }
        _ => panic!("unknown iteration {k}"),
    }
}

// ---------------------------------------------------------------------------------------------

pub struct Outcome {
    pub obs: Vec<Value>,
    pub log: Vec<Value>,
}

/// Runs the commands on one input; `fresh` gives the input at its start.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// one parser, used by reference by all commands with the same tree
    Ref,
    /// a parser of its own for every command
    Fresh,
    /// consumed by each use
    Once,
    /// by reference, while other uses of the same parser come and go
    Shared,
}
impl Mode {
    fn name(self) -> &'static str {
        match self {
            Mode::Ref => "ref",
            Mode::Fresh => "fresh",
            Mode::Once => "once",
            Mode::Shared => "shared",
        }
    }
}
/// Polls `main`; in between, other uses of the same parser are begun, taken some way, and given up. What they
/// call is not noted.
async fn amid<'a, T>(main: impl std::future::Future<Output = T>, other: impl Fn() -> Fut<'a, ()>, rng: &RefCell<Rng>) -> T {
    let mut main = std::pin::pin!(main);
    let mut cur: Option<Fut<'a, ()>> = None;
    let mut left = 8;
    std::future::poll_fn(move |cx| {
        while left > 0 && rng.borrow_mut().chance(2, 3) {
            left -= 1;
            let (log, fuel) = (LOG.with(|l| std::mem::take(&mut *l.borrow_mut())), FUEL.with(|f| f.replace(500)));
            let r = catch(|| {
                if rng.borrow_mut().chance(1, 3) {
                    cur = None;
                }
                let f = cur.get_or_insert_with(&other);
                if f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())).is_ready() {
                    cur = None;
                }
            });
            LOG.with(|l| *l.borrow_mut() = log);
            FUEL.with(|f| f.set(fuel));
            if let Err(e) = r {
                // those begun elsewhere may go on for ever
                if !e.contains("runs on without end") {
                    panic!("another use of the parser: {e}");
                }
                std::mem::forget(cur.take());
                left = 0;
            }
        }
        main.as_mut().poll(cx)
    })
    .await
}
fn run_on<S: Carrier>(case: &Value, fresh: impl Fn() -> S, mode: Mode) -> Outcome {
    let once = mode == Mode::Once;
    let rng = RefCell::new(Rng::new(cases_seed()));
    let n = base().codes.len();
    let fresh = &fresh;
    LOG.with(|l| l.borrow_mut().clear());
    FUEL.with(|f| f.set(3000 + 20 * base().codes.len()));
    let obs = RefCell::new(Vec::<Value>::new());
    let cmds = case["cmds"].as_array().expect("cmds");
    // commands with equal trees share one parser
    let mut trees: Vec<&Value> = vec![];
    let mut which = vec![];
    for c in cmds {
        let n = &c["n"];
        if n.is_null() {
            which.push(usize::MAX);
            continue;
        }
        let same = if mode == Mode::Fresh { None } else { trees.iter().position(|t| *t == n) };
        let i = same.unwrap_or_else(|| {
            trees.push(n);
            trees.len() - 1
        });
        which.push(i);
    }
    let work = async {
        enum Built<S> {
            P(DynP<S>),
            I(DynI<S>),
        }
        let built: Vec<Built<S>> = trees
            .iter()
            .map(|t| {
                if is_iter(t["k"].as_str().unwrap()) {
                    Built::I(build_iter::<S>(t))
                } else {
                    Built::P(build::<S>(t))
                }
            })
            .collect();
        let mut slots: std::collections::HashMap<u64, (BoxState<'_, S>, Option<S>, &DynI<S>)> = Default::default();
        for (c, w) in cmds.iter().zip(&which) {
            match c["op"].as_str().unwrap() {
                "parse" => {
                    let s = fresh().adv(num(c, "at")).await;
                    let anchor = s.anchor();
                    let Built::P(p) = &built[*w] else { panic!("not a parser") };
                    let r = match mode {
                        Mode::Once => p.clone().parse_once(s).await,
                        Mode::Shared => {
                            let other = || -> Fut<'_, ()> {
                                let at = rng.borrow_mut().below(n + 1);
                                Box::pin(async move {
                                    let _ = p.parse(fresh().adv(at).await).await;
                                })
                            };
                            amid(p.parse(s), other, &rng).await
                        }
                        _ => p.parse(s).await,
                    };
                    let o = match r {
                        Ok((v, r)) => json!({"r": "ok", "v": v.s, "p": r.checked_pos().await.0}),
                        Err((e, r)) => {
                            let r = r.rewind(anchor).await;
                            json!({"r": "err", "v": e.s, "f": e.f, "p": r.checked_pos().await.0})
                        }
                    };
                    obs.borrow_mut().push(o);
                }
                "iter" => {
                    let s = fresh().adv(num(c, "at")).await;
                    let Built::I(p) = &built[*w] else { panic!("not an iteration") };
                    let st = if once { p.0.once() } else { p.parse_iterative() };
                    slots.insert(c["slot"].as_u64().unwrap(), (st, Some(s), p));
                }
                _ => {
                    let (st, s, p) = slots.get_mut(&c["slot"].as_u64().unwrap()).unwrap();
                    let cur = s.take().unwrap();
                    let anchor = cur.anchor();
                    let res = if mode == Mode::Shared {
                        let p = *p;
                        let other = || -> Fut<'_, ()> {
                            let at = rng.borrow_mut().below(n + 1);
                            let steps = 1 + rng.borrow_mut().below(3);
                            Box::pin(async move {
                                let mut s = fresh().adv(at).await;
                                let mut st = p.parse_iterative();
                                for _ in 0..steps {
                                    let Ok((_, r)) = st.parse_next(s).await else { return };
                                    s = r;
                                }
                            })
                        };
                        amid(st.parse_next(cur), other, &rng).await
                    } else {
                        st.parse_next(cur).await
                    };
                    let (o, r) = match res {
                        Ok((Some(v), r)) => {
                            let (p, r) = r.checked_pos().await;
                            (json!({"r": "ok", "v": v.s, "p": p}), r)
                        }
                        Ok((None, r)) => {
                            let (p, r) = r.checked_pos().await;
                            (json!({"r": "end", "p": p}), r)
                        }
                        Err((e, r)) => {
                            let r = r.rewind(anchor).await;
                            let (p, r) = r.checked_pos().await;
                            (json!({"r": "err", "v": e.s, "f": e.f, "p": p}), r)
                        }
                    };
                    *s = Some(r);
                    obs.borrow_mut().push(o);
                }
            }
        }
    };
    match catch(|| block_on(work)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => obs.borrow_mut().push(json!({"r": "stuck", "v": e})),
        Err(e) => obs.borrow_mut().push(json!({"r": "panic", "v": e})),
    }
    Outcome { obs: obs.into_inner(), log: LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
}

thread_local! {
    static EXT: Cell<bool> = const { Cell::new(false) };
}
thread_local! {
    static CASE_SEED: Cell<u64> = const { Cell::new(0) };
}
fn cases_seed() -> u64 {
    CASE_SEED.with(|c| c.get())
}
/// whether this case builds its combinators through the extension methods
fn ext() -> bool {
    EXT.with(|e| e.get())
}

/// begins to note calls on this thread
pub fn begin(codes: &[u32], chars: Option<u64>, extension: bool, fuel: usize) {
    set_base(codes, chars);
    EXT.with(|e| e.set(extension));
    LOG.with(|l| l.borrow_mut().clear());
    FUEL.with(|f| f.set(fuel));
}
pub fn noted() -> Vec<Value> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// All ways a case is run. Returns (name, outcome); a name is carrier/mode.
pub fn run_all(case: &Value, seed: u64, full: bool) -> Vec<(String, Outcome)> {
    let codes: Vec<u32> = nums(case, "input");
    let mut rng = Rng::new(seed);
    CASE_SEED.with(|c| c.set(seed));
    EXT.with(|e| e.set(rng.chance(1, 2)));
    let perm = if rng.chance(1, 4) { None } else { Some(rng.next()) };
    set_base(&codes, perm);
    let b = base();
    let n = codes.len();
    let mut out: Vec<(String, Outcome)> = vec![];
    let reused = case["cmds"].as_array().map(|c| c.len()).unwrap_or(0) > 1;
    let modes: &[Mode] =
        if reused { &[Mode::Ref, Mode::Fresh, Mode::Once] } else { &[Mode::Ref, Mode::Once] };
    let mut add = |name: String, run: &dyn Fn(Mode) -> Outcome| {
        for m in modes {
            out.push((format!("{name}/{}", m.name()), run(*m)));
        }
        if name.starts_with("pieces") && name.contains('w') {
            out.push((format!("{name}/shared"), run(Mode::Shared)));
        }
    };
    add("str".into(), &|m| run_on(case, || b.text, m));
    add("slice".into(), &|m| run_on(case, || b.items, m));
    add("measured-str".into(), &|m| run_on(case, meas_str, m));
    add("measured-slice".into(), &|m| run_on(case, meas_slice, m));
    let singles: Vec<usize> = (0..=n).collect();
    if full {
        add("singles-str".into(), &|m| run_on(case, || ChunkStr::new(b.text, &singles, 0, false), m));
        add("singles-slice".into(), &|m| run_on(case, || ChunkSlice::new(b.items, &singles, 0, true), m));
    }
    for _ in 0..(if full { 2 } else { 1 }) {
        let m = rng.below(n + 3);
        let c: Vec<usize> = (0..m).map(|_| rng.below(n + 1)).collect();
        let w = if rng.chance(1, 3) { 0 } else { rng.next() | 1 };
        let t = rng.chance(1, 2);
        let tag = format!("{c:?}{}{}", if w == 0 { "" } else { "w" }, if t { "t" } else { "" });
        add(format!("pieces-str{tag}"), &|m| run_on(case, || ChunkStr::new(b.text, &c, w, t), m));
        add(format!("pieces-slice{tag}"), &|m| run_on(case, || ChunkSlice::new(b.items, &c, w, t), m));
    }
    out
}

/// errors of several sizes that ask to stop or do not
struct Z1;
struct Z0;
struct Tiny(bool);
struct Huge([u64; 40], bool);
macro_rules! asks {
    ($($t:ident, $s:ident => $e:expr;)*) => {$(
        impl ParseError for $t {
            fn should_terminate(&self) -> bool {
                let $s = self;
                $e
            }
        }
    )*};
}
asks! {
    Z1, _s => true;
    Z0, _s => false;
    Tiny, s => s.0;
    Huge, s => s.1 && s.0 == [7; 40];
}
/// runs the block once for each kind of error, with `$e` making one that asks to stop or not
macro_rules! each {
    ($out:ident, $f:expr, $e:ident => $b:expr) => {{
        let f = $f;
        {
            let $e = || DErr::new("e", f);
            $out.push($b);
        }
        if f {
            let $e = || Z1;
            $out.push($b);
        } else {
            let $e = || Z0;
            $out.push($b);
        }
        {
            let $e = || Tiny(f);
            $out.push($b);
        }
        {
            let $e = || Huge([7; 40], f);
            $out.push($b);
        }
    }};
}
/// whether the composite error asks to stop: each layer is the real one, over errors of several sizes
pub fn terminates(n: &Value) -> bool {
    fn ask<E: ParseError>(e: E) -> bool {
        e.should_terminate()
    }
    fn either<T: ParseError, U: ParseError>(v: T, w: T, last: bool, _o: fn() -> U) -> [bool; 2] {
        if last {
            [ask(Either::<U, T>::Last(v)), ask(EitherBoth::<U, T>::Last(w))]
        } else {
            [ask(Either::<T, U>::First(v)), ask(EitherBoth::<T, U>::First(w))]
        }
    }
    let mut out = vec![];
    let k = n["k"].as_str().unwrap();
    match k {
        "leaf" => out.push(n["f"].as_bool().unwrap()),
        "none" => out.extend([ask(None::<DErr>), ask(None::<Z1>), ask(None::<Z0>), ask(None::<Huge>), ask(None::<&Tiny>)]),
        "some" => each!(out, terminates(&n["a"]), e => ask(Some(e()))),
        "first" | "last" => {
            let mut v = vec![];
            each!(v, terminates(&n["a"]), e => [
                either(e(), e(), k == "last", || Z1),
                either(e(), e(), k == "last", || Z0),
                either(e(), e(), k == "last", || DErr::new("e", true)),
                either(e(), e(), k == "last", || Tiny(false)),
            ]);
            out.extend(v.into_iter().flatten().flatten());
        }
        "both" => {
            let mut v = vec![];
            each!(v, terminates(&n["a"]), e => {
                let mut o = vec![];
                each!(o, terminates(&n["b"]), f => ask(EitherBoth::Both(e(), f())));
                o
            });
            out.extend(v.into_iter().flatten());
        }
        "ref" => each!(out, terminates(&n["a"]), e => ask(&e())),
        "fatal" => each!(out, terminates(&n["a"]), e => ask(Fatal(e()))),
        "miss" => each!(out, terminates(&n["a"]), e => ask(Miss(e()))),
        k => panic!("unknown error {k}"),
    }
    assert!(out.iter().all(|x| *x == out[0]), "whether {k} asks to stop depends on what it holds");
    out[0]
}

// ---- what a choice holds, by side --------------------------------------------------------------

struct SideVal(&'static str, String);
#[derive(Debug)]
struct A0(String);
#[derive(Debug)]
struct B0(String);
impl From<A0> for SideVal {
    fn from(a: A0) -> SideVal {
        SideVal("first", a.0)
    }
}
impl From<B0> for SideVal {
    fn from(b: B0) -> SideVal {
        SideVal("last", b.0)
    }
}
/// the value and the error form of a choice, asked; they must agree
pub fn sides(n: &Value) -> Value {
    use parcom_core::Never;
    let val = |k: &str| n[k].as_u64().unwrap().to_string();
    let (first, last) = (n["first"].as_bool().unwrap(), n["last"].as_bool().unwrap());
    let either = || if first { Either::First(A0(val("a"))) } else { Either::Last(B0(val("b"))) };
    assert!(first != last, "only of one side");
    let first_only = || -> (Either<A0, Never>, EitherBoth<A0, Never>) { (Either::First(A0(val("a"))), EitherBoth::First(A0(val("a")))) };
    let last_only = || -> (Either<Never, B0>, EitherBoth<Never, B0>) { (Either::Last(B0(val("b"))), EitherBoth::Last(B0(val("b")))) };
    let show = |v: SideVal| json!([v.0, v.1.parse::<u64>().unwrap()]);
    let asked = |g: &dyn Fn() -> SideVal| catch(g).map_or(json!(["refused", 0]), show);
    match n["ask"].as_str().unwrap() {
        "unify" => asked(&|| either().unify()),
        "unwrap_first" => asked(&|| either().unwrap_first().into()),
        "unwrap_last" => asked(&|| either().unwrap_last().into()),
        "always_first" => {
            let (x, y) = (asked(&|| first_only().0.always_first().into()), asked(&|| first_only().1.always_first().into()));
            if x == y { x } else { json!([x, y]) }
        }
        "always_last" => {
            let (x, y) = (asked(&|| last_only().0.always_last().into()), asked(&|| last_only().1.always_last().into()));
            if x == y { x } else { json!([x, y]) }
        }
        k => panic!("unknown question {k}"),
    }
}

// ---- long inputs that are all alike -----------------------------------------------------------

/// terms of a binary expression, and whether it grew on the expected side only
struct Terms(usize, bool);
thread_local! {
    static RIGHT: Cell<bool> = const { Cell::new(false) };
}
impl From<Val> for Terms {
    fn from(v: Val) -> Terms {
        Terms(1, v.s == "t0")
    }
}
impl From<(Terms, Op, Terms)> for Terms {
    fn from((l, o, r): (Terms, Op, Terms)) -> Terms {
        let single = if RIGHT.with(|r| r.get()) { l.0 } else { r.0 };
        Terms(l.0 + r.0, l.1 && r.1 && single == 1 && o.v.s == "t0")
    }
}
fn count_of(s: &str) -> usize {
    s.matches("t0").count() + s.matches('u').count()
}
/// the parser meant; its value shows as (items, all as they should be)
fn uniform_parser<S: Carrier>(x: &Value) -> DynP<S> {
    let item = json!({"k": "the", "c": 0});
    let rep = json!({"k": "rep", "a": item});
    let show = |c: usize, even: bool| Val::new(format!("{c} {}", even as u8), 0);
    match x["k"].as_str().unwrap() {
        "rep" => {
            let p = build::<S>(&item);
            DynP::comb(
                move || if ext() { p.clone().repeat() } else { Repeat::new(p.clone()) },
                move |(vs, e): (Vec<Val>, DErr)| show(vs.len(), vs.iter().all(|v| v.s == "t0") && e.s == "m"),
                same_err,
            )
        }
        "collect" => {
            let p = build_iter::<S>(&x["a"]);
            DynP::comb(
                move || if ext() { p.clone().collect::<Vec<Val>>() } else { Collect::<S, _, Vec<Val>>::new(p.clone()) },
                move |(vs, e): (Vec<Val>, Option<DErr>)| show(vs.len(), vs.iter().all(|v| count_of(&v.s) == 1) && e.is_none()),
                same_err,
            )
        }
        "fold" => {
            let p = build_iter::<S>(&x["a"]);
            let g = |(c, even): (usize, bool), v: Val| (c + 1, even && count_of(&v.s) == 1);
            DynP::comb(
                move || if ext() { p.clone().fold((0, true), g) } else { Fold::new(p.clone(), (0, true), g) },
                move |(c, even)| show(c, even),
                same_err,
            )
        }
        "opt" => {
            let p = build::<S>(&item);
            DynP::comb(
                move || if ext() { p.clone().optional() } else { Optional::new(p.clone()) },
                move |r: Result<Val, DErr>| match r {
                    Ok(v) => show(1, v.s == "t0"),
                    Err(e) => show(0, e.s == "m"),
                },
                same_err,
            )
        }
        "atom" => {
            let w = num(x, "w");
            let p = build::<S>(&json!({"k": "atom", "w": vec![0; w], "form": num_or(x, "form", 0)}));
            DynP::comb(move || p.clone(), move |v: Val| show(v.s[1..].parse().unwrap(), true), same_err)
        }
        "try" => {
            let (p, q) = (build::<S>(&json!({"k": "join", "a": rep, "b": {"k": "the", "c": 7}})), build::<S>(&rep));
            DynP::comb(
                move || if ext() { p.clone().or(q.clone()) } else { Or::new(p.clone(), q.clone()) },
                move |e: Either<Val, Val>| match e {
                    Either::First(v) => show(count_of(&v.s), false),
                    Either::Last(v) => show(count_of(&v.s), v.s.starts_with('[') && v.s.ends_with(";m]")),
                },
                |e: EitherBoth<DErr, DErr>| DErr::new("e", e.should_terminate()),
            )
        }
        "bin" => {
            let p = build::<S>(&item);
            let right = x["right"].as_bool().unwrap();
            RIGHT.with(|r| r.set(right));
            let ops = Rc::new(vec![(num(x, "prec"), right)]);
            DynP::comb(
                move || BinExprParser::<S, _, _, Terms>::new(p.clone(), OpP(p.clone(), ops.clone(), same_err as fn(DErr) -> DErr)),
                // the input ends the expression where an operator is looked for or, behind one, where a term is
                move |(t, e): (Terms, Either<DErr, DErr>)| match e {
                    Either::First(e) => show(t.0, t.1 && e.s == "m" && UNEVEN.with(|u| u.get())),
                    Either::Last(e) => show(t.0, t.1 && e.s == "m" && !UNEVEN.with(|u| u.get())),
                },
                either_err,
            )
        }
        k => panic!("unknown uniform {k}"),
    }
}
thread_local! {
    // whether the number of items is odd
    static UNEVEN: Cell<bool> = const { Cell::new(false) };
}
fn uniform_on<S: Carrier>(c: &Value, fresh: impl Fn() -> S, out: &mut Vec<Value>) {
    let (n, at) = (num(c, "n"), num(c, "at"));
    FUEL.with(|f| f.set(100 + 20 * n));
    ONLY_COUNT.with(|o| o.set(true));
    let work = async {
        let p = uniform_parser::<S>(&c["x"]);
        let mut seen = vec![];
        for way in 0..3 {
            CALLS.with(|c| c.set(0));
            let s = fresh().adv(at).await;
            let anchor = s.anchor();
            let r = if way == 2 { p.clone().parse_once(s).await } else { p.parse(s).await };
            let (ok, v, s) = match r {
                Ok((v, s)) => (true, v.s, s),
                Err((_, r)) => (false, "0 1".into(), r.rewind(anchor).await),
            };
            let (c, even) = v.split_once(' ').unwrap();
            let calls = CALLS.with(|c| c.get());
            seen.push(json!({"e": "run", "ok": ok, "c": c.parse::<usize>().unwrap(), "even": even == "1",
                "p": s.checked_pos().await.0, "calls": calls}));
        }
        seen
    };
    let r = catch(|| block_on(work));
    ONLY_COUNT.with(|o| o.set(false));
    match r {
        Ok(Ok(seen)) => out.extend(seen),
        Ok(Err(e)) => out.push(json!({"e": "stuck", "v": e})),
        Err(e) => out.push(json!({"e": "panic", "v": e})),
    }
}
/// a case: n items 0 and t items 1, begun behind `at` items, on one carrier
pub fn uniform(c: &Value) -> Vec<Value> {
    let (n, t, seed) = (num(c, "n"), num(c, "t"), num(c, "seed") as u64);
    let mut rng = Rng::new(seed);
    EXT.with(|e| e.set(rng.chance(1, 2)));
    UNEVEN.with(|u| u.set((n - num(c, "at")) % 2 == 1));
    let codes: Vec<u32> = (0..n + t).map(|i| (i >= n) as u32).collect();
    set_base(&codes, if rng.chance(1, 2) { None } else { Some(rng.next()) });
    let b = base();
    let cuts: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(n + t + 1)).collect();
    let mut out = vec![];
    match c["on"].as_str().unwrap() {
        "str" => uniform_on(c, || b.text, &mut out),
        "slice" => uniform_on(c, || b.items, &mut out),
        "measured-str" => uniform_on(c, meas_str, &mut out),
        "measured-slice" => uniform_on(c, meas_slice, &mut out),
        "pieces-str" => uniform_on(c, || ChunkStr::new(b.text, &cuts, seed | 1, false), &mut out),
        _ => uniform_on(c, || ChunkSlice::new(b.items, &cuts, 0, true), &mut out),
    }
    out
}
