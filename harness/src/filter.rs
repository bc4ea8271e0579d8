//! Histories of filtered observables over a source that hands items to its subscribers in order.
use crate::util::*;
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type Log = Rc<RefCell<Vec<Value>>>;
type Pred<T> = Box<dyn Fn(&T) -> bool>;

/// an item carries a number
trait Elem: 'static {
    fn make(x: u64) -> Self;
    fn id(&self) -> u64;
}
struct Item(Rc<u64>);
impl Elem for Item {
    fn make(x: u64) -> Self {
        Item(Rc::new(x))
    }
    fn id(&self) -> u64 {
        *self.0
    }
}
impl Elem for u8 {
    fn make(x: u64) -> Self {
        x as u8
    }
    fn id(&self) -> u64 {
        *self as u64
    }
}
/// carries nothing; every number published is 0
impl Elem for () {
    fn make(_: u64) -> Self {}
    fn id(&self) -> u64 {
        0
    }
}
impl Elem for [u64; 9] {
    fn make(x: u64) -> Self {
        [x; 9]
    }
    fn id(&self) -> u64 {
        if self.iter().all(|x| *x == self[0]) { self[0] } else { 999_999 }
    }
}

trait DynObserver<T> {
    fn tell(&mut self, x: T);
}
struct Dyn<U>(U);
impl<T, U: IObserver<T>> DynObserver<T> for Dyn<U> {
    fn tell(&mut self, x: T) {
        self.0.next(x)
    }
}

/// the source; `replay`: a new subscriber is told everything published before
struct Source<T>(Rc<Inner<T>>);
impl<T> Clone for Source<T> {
    fn clone(&self) -> Self {
        Source(self.0.clone())
    }
}
struct Inner<T> {
    replay: bool,
    past: RefCell<Vec<u64>>,
    subs: RefCell<Vec<Option<Box<dyn DynObserver<T>>>>>,
}
struct Sub<T> {
    source: Source<T>,
    at: usize,
}
impl<T> Drop for Sub<T> {
    fn drop(&mut self) {
        let gone = self.source.0.subs.borrow_mut()[self.at].take();
        drop(gone);
    }
}
/// keeps its observer type, as a typed source would
struct TypedSub<T, U> {
    _sub: Sub<T>,
    _of: std::marker::PhantomData<U>,
}
// the item type of an observer need not be 'static in the trait; the source keeps boxes, so lifetimes are cut here
fn erase<T, U: IObserver<T>>(u: U) -> Box<dyn DynObserver<T>> {
    let b: Box<dyn DynObserver<T> + '_> = Box::new(Dyn(u));
    unsafe { std::mem::transmute(b) }
}
impl<T: Elem> IObservable<T> for Source<T> {
    type Subscription<U: IObserver<T>> = TypedSub<T, U>;
    fn subscribe<U: IObserver<T>>(&self, observer: U) -> TypedSub<T, U> {
        let mut b = erase(observer);
        if self.0.replay {
            for x in self.0.past.borrow().iter() {
                b.tell(T::make(*x));
            }
        }
        self.0.subs.borrow_mut().push(Some(b));
        let at = self.0.subs.borrow().len() - 1;
        TypedSub { _sub: Sub { source: self.clone(), at }, _of: std::marker::PhantomData }
    }
}
impl<T: Elem> Source<T> {
    fn publish(&self, x: u64) {
        let n = self.0.subs.borrow().len();
        for k in 0..n {
            // one that is being told something is not told what it causes
            let s = self.0.subs.borrow_mut()[k].take();
            if let Some(mut s) = s {
                s.tell(T::make(x));
                self.0.subs.borrow_mut()[k] = Some(s);
            }
        }
        self.0.past.borrow_mut().push(x);
    }
}

struct End {
    o: usize,
    log: Log,
    /// publishes
    echo: Option<Box<dyn Fn(u64)>>,
}
impl<T: Elem> IObserver<T> for End {
    fn next(&mut self, x: T) {
        let x = x.id();
        self.log.borrow_mut().push(json!(["got", self.o, x]));
        if let (Some(publish), true) = (&self.echo, x > 0) {
            publish(x - 1);
        }
    }
}

struct World<T> {
    source: Source<T>,
    log: Log,
    asked: Rc<[Cell<u64>; 7]>,
}
impl<T: Elem> World<T> {
    fn pred(&self, p: usize) -> Pred<T> {
        let (log, asked) = (self.log.clone(), self.asked.clone());
        Box::new(move |x: &T| {
            log.borrow_mut().push(json!(["ask", p, x.id()]));
            let n = asked[p].get();
            asked[p].set(n + 1);
            let x = x.id();
            match p {
                1 => x % 2 == 0,
                2 => x > 2,
                3 => true,
                4 => false,
                5 => x % 3 != 1,
                _ => n % 2 == 0,
            }
        })
    }
}
/// something to subscribe to, of any type
trait Subscribe {
    fn sub(&self, o: End) -> Box<dyn std::any::Any>;
}
struct Of<T, O>(O, std::marker::PhantomData<T>);
fn of<T: Elem, O: IObservable<T> + 'static>(o: O) -> Box<dyn Subscribe>
where
    O::Subscription<End>: 'static,
{
    Box::new(Of(o, std::marker::PhantomData::<T>))
}
impl<T: Elem, O> Subscribe for Of<T, O>
where
    O: IObservable<T>,
    O::Subscription<End>: 'static,
{
    fn sub(&self, o: End) -> Box<dyn std::any::Any> {
        Box::new(self.0.subscribe(o))
    }
}

pub fn run(case: &Value) -> Vec<Value> {
    match case["item"].as_u64().unwrap_or(0) {
        0 => play::<Item>(case),
        1 => play::<u8>(case),
        3 => play::<()>(case),
        _ => play::<[u64; 9]>(case),
    }
}
fn play<T: Elem>(case: &Value) -> Vec<Value> {
    let w = World::<T> {
        source: Source(Rc::new(Inner { replay: case["replay"].as_bool().unwrap(), past: Default::default(), subs: Default::default() })),
        log: Default::default(),
        asked: Default::default(),
    };
    let mut filters: Vec<Option<Box<dyn Subscribe>>> = vec![Some(of(w.source.clone()))];
    let mut subs: Vec<Option<Box<dyn std::any::Any>>> = vec![];
    let mut ev = vec![];
    for cmd in case["cmds"].as_array().unwrap() {
        let op = cmd["op"].as_str().unwrap();
        let mut e = json!({"e": op});
        let r = catch(|| match op {
            "make" => {
                e["chain"] = cmd["chain"].clone();
                let ps: Vec<Pred<T>> = cmd["chain"].as_array().unwrap().iter().map(|p| w.pred(p.as_u64().unwrap() as usize)).collect();
                let mut ps = ps.into_iter();
                let s = w.source.clone();
                macro_rules! p {
                    () => {
                        ps.next().unwrap()
                    };
                }
                filters.push(Some(match ps.len() {
                    0 => of(s),
                    1 => of(s.filter(p!())),
                    2 => of(s.filter(p!()).filter(p!())),
                    3 => of(s.filter(p!()).filter(p!()).filter(p!())),
                    4 => of(s.filter(p!()).filter(p!()).filter(p!()).filter(p!())),
                    5 => of(s.filter(p!()).filter(p!()).filter(p!()).filter(p!()).filter(p!())),
                    _ => panic!("chain too long"),
                }));
            }
            "unmake" => {
                e["f"] = cmd["f"].clone();
                filters[cmd["f"].as_u64().unwrap() as usize] = None;
            }
            "sub" => {
                let f = cmd["f"].as_u64().unwrap() as usize;
                e["f"] = json!(f);
                let source = Rc::downgrade(&w.source.0);
                let echo = cmd["echo"] == true;
                e["echo"] = json!(echo);
                let echo = echo.then(|| Box::new(move |x| Source(source.upgrade().unwrap()).publish(x)) as Box<dyn Fn(u64)>);
                let o = End { o: subs.len() + 1, log: w.log.clone(), echo };
                subs.push(Some(filters[f].as_ref().unwrap().sub(o)));
            }
            "pub" => {
                e["x"] = cmd["x"].clone();
                w.source.publish(cmd["x"].as_u64().unwrap());
            }
            "unsub" => {
                e["o"] = cmd["o"].clone();
                let s = subs[cmd["o"].as_u64().unwrap() as usize - 1].take();
                drop(s);
            }
            _ => panic!("unknown command {op}"),
        });
        e["log"] = json!(std::mem::take(&mut *w.log.borrow_mut()));
        match r {
            Ok(()) => ev.push(e),
            Err(t) => {
                ev.push(json!({"e": "panic", "what": t, "at": op}));
                break;
            }
        }
    }
    ev
}
