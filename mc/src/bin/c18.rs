//! Errors keep their message and the full chain of causes.

#[cfg(not(feature = "error"))]
fn main() {
    mc::engine::run("C18", |_| ());
}

#[cfg(feature = "error")]
fn main() {
    imp::main()
}

#[cfg(feature = "error")]
mod imp {
    use mc::{
        engine::{run, Mc},
        observe::chain,
        routes::{derived, histories, nested},
        spec::{Er, Txt},
    };
    use std::{error::Error as StdError, fmt, sync::Arc};
    use value_bag::{fill::Slot, visit::Visit, Error, ValueBag};

    /// An error whose causes are of other types.
    #[derive(Debug)]
    pub struct Mixed {
        msg: String,
        source: Option<Box<dyn StdError + Send + Sync>>,
    }

    impl fmt::Display for Mixed {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.msg)
        }
    }

    impl StdError for Mixed {
        fn source(&self) -> Option<&(dyn StdError + 'static)> {
            self.source.as_ref().map(|e| &**e as &(dyn StdError + 'static))
        }
    }

    fn mixed(msgs: &[String]) -> Mixed {
        let mut e: Option<Box<dyn StdError + Send + Sync>> = None;
        for (i, m) in msgs.iter().enumerate().skip(1).rev() {
            e = Some(match (i % 3, e) {
                // These can't have a cause
                (0, None) => m.clone().into(),
                (_, e) => Box::new(Mixed { msg: m.clone(), source: e }),
            });
        }
        Mixed { msg: msgs[0].clone(), source: e }
    }

    fn er(msgs: &[String]) -> Er {
        let mut e = None;
        for m in msgs.iter().rev() {
            e = Some(Er {
                msg: Txt::raw([m.as_str()]),
                source: e.map(Box::new),
            });
        }
        e.expect("at least one message")
    }

    /// Only looks at errors.
    #[derive(Default)]
    struct Lent(Vec<(&'static str, Vec<String>)>);

    impl<'v> Visit<'v> for Lent {
        fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
            self.0.push(("any", vec![]));
            Ok(())
        }
        fn visit_error(&mut self, e: &(dyn StdError + 'static)) -> Result<(), Error> {
            self.0.push(("error", chain(e)));
            Ok(())
        }
    }

    /// Looks at errors that can be kept.
    #[derive(Default)]
    struct Kept<'v>(Vec<(&'static str, Vec<String>)>, Option<&'v (dyn StdError + 'static)>);

    impl<'v> Visit<'v> for Kept<'v> {
        fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
            self.0.push(("any", vec![]));
            Ok(())
        }
        fn visit_error(&mut self, e: &(dyn StdError + 'static)) -> Result<(), Error> {
            self.0.push(("error", chain(e)));
            Ok(())
        }
        fn visit_borrowed_error(&mut self, e: &'v (dyn StdError + 'static)) -> Result<(), Error> {
            self.0.push(("error", chain(e)));
            self.1 = Some(e);
            Ok(())
        }
    }

    /// How much can be seen of the error.
    #[derive(Clone, Copy)]
    struct Expect<'a> {
        msgs: &'a [String],
        /// The error is the bag itself, so the accessor gives it
        access: bool,
        /// There's no telling whether the accessor gives it, but if so it's the same
        maybe: bool,
    }

    fn observe(mc: &mut Mc, bag: &ValueBag, x: Expect) {
        mc.state();
        let expected = vec![("error", x.msgs.to_vec())];
        mc.step();
        let mut v = Lent::default();
        mc.ensure("visit", bag.visit(&mut v).is_ok(), || "an error".into(), "no error");
        mc.eq("visited", &v.0, &expected);
        mc.step();
        let mut v = Kept::default();
        mc.ensure("visit_kept", bag.visit(&mut v).is_ok(), || "an error".into(), "no error");
        mc.eq("visited_kept", &v.0, &expected);
        if let Some(e) = v.1 {
            mc.eq("kept", &chain(e), &x.msgs.to_vec());
        }
        mc.step();
        let got = bag.to_borrowed_error().map(chain);
        if x.access || (x.maybe && got.is_some()) {
            mc.eq("to_borrowed_error", &got, &Some(x.msgs.to_vec()));
        }
        mc.step();
        let converted = <&(dyn StdError + 'static)>::try_from(bag.clone());
        mc.eq("converted", &converted.ok().map(chain), &got);
        mc.step();
        mc.eq("display", &bag.to_string(), &x.msgs[0]);
        mc.eq("to_str", &bag.to_str().map(|s| s.into_owned()), &None);
        mc.eq("is_empty", &bag.is_empty(), &false);
        text(mc, bag, &x.msgs[0]);
        mc.trace();
    }

    #[allow(unused_variables)]
    fn text(mc: &mut Mc, bag: &ValueBag, msg: &str) {
        #[cfg(feature = "serde1")]
        mc.eq("serde", &mc::record::ser::doc(bag).ok(), &Some(mc::record::Doc::Text(msg.into())));
        #[cfg(feature = "sval2")]
        mc.eq("sval", &mc::record::sv::doc(bag).ok(), &Some(mc::record::Doc::Text(msg.into())));
    }

    fn one(mc: &mut Mc, what: &'static str, bag: &ValueBag, msgs: &[String], direct: bool, depth: usize) {
        mc.enter(what);
        mc.outcome(msgs.join("\n").as_bytes());
        derived(bag, &mut |step, bag| {
            let buffered = step.contains("own") || step.contains("share");
            mc.at(step, |mc| {
                observe(mc, bag, Expect { msgs, access: direct && !buffered, maybe: true });
            })
        });
        nested(bag, &mut |step, bag| {
            mc.at(step, |mc| {
                mc.state();
                mc.step();
                if step == "from_owned" {
                    observe(mc, bag, Expect { msgs, access: false, maybe: true })
                } else {
                    // It's text by now
                    text(mc, bag, &msgs[0]);
                }
            });
        });
        if depth > 0 {
            histories(mc, bag, depth, &mut |mc, bag, buffered| {
                observe(mc, bag, Expect { msgs, access: direct && buffered == 0, maybe: true });
            });
        }
        mc.leave();
    }

    /// All the ways of putting an error in a bag.
    fn ways<E: StdError + Send + Sync + 'static>(mc: &mut Mc, new: &dyn Fn() -> E, msgs: &[String], depth: usize) {
        let e: &'static E = Box::leak(Box::new(new()));
        let d: &'static (dyn StdError + 'static) = e;
        one(mc, "capture", &ValueBag::capture_error(e), msgs, true, depth);
        let bag = ValueBag::capture_error(e);
        let got = bag.to_borrowed_error().and_then(|e| e.downcast_ref::<E>()).map(|e| e as *const E);
        mc.eq("identity", &got, &Some(e as *const E));
        one(mc, "dyn", &ValueBag::from_dyn_error(d), msgs, true, depth);
        let bag = ValueBag::from_dyn_error(d);
        let got = bag.to_borrowed_error().and_then(|e| e.downcast_ref::<E>()).map(|e| e as *const E);
        mc.eq("identity", &got, &Some(e as *const E));
        one(mc, "from", &ValueBag::from(d), msgs, true, 0);
        one(mc, "from_ref", &ValueBag::from(&d), msgs, true, 0);
        one(mc, "option", &ValueBag::from(Some(d)), msgs, true, 0);
        one(mc, "from_option", &ValueBag::from_option(Some(&d)), msgs, true, 0);
        one(mc, "fill", &ValueBag::from_fill(&|s: Slot| s.fill_error(new())), msgs, false, depth.min(1));
        one(mc, "fill_dyn", &ValueBag::from_fill(&|s: Slot| s.fill_dyn_error(&new())), msgs, false, 0);
        one(mc, "fill_any", &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::capture_error(e))), msgs, false, 0);
        #[cfg(feature = "owned")]
        {
            one(mc, "shared", &ValueBag::capture_shared_error(new()), msgs, false, depth);
            let owned: &'static value_bag::OwnedValueBag = Box::leak(Box::new(ValueBag::capture_error(e).to_owned()));
            one(mc, "owned", &owned.by_ref(), msgs, false, 0);
            one(
                mc,
                "fill_owned",
                &ValueBag::from_fill(&|s: Slot| s.fill_any(owned)),
                msgs,
                false,
                0,
            );
        }
        // Safe to take back: nothing that refers to it is left
        drop(unsafe { Box::from_raw(e as *const E as *mut E) });
    }

    fn all_chains(alphabet: &[&str], len: usize, f: &mut dyn FnMut(&[String])) {
        let mut idx = vec![0; len];
        loop {
            f(&idx.iter().map(|i| alphabet[*i].to_owned()).collect::<Vec<_>>());
            let mut i = 0;
            loop {
                if i == len {
                    return;
                }
                idx[i] += 1;
                if idx[i] < alphabet.len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
        }
    }

    pub fn main() {
        run("C18", |mc| {
            let thorough = mc.thorough();
            let long = "m".repeat(70);
            let alphabet = ["", "a", "b\"\n\u{e9}", "exactly twenty-two byte", &long];
            for len in 1..=if thorough { 6 } else { 4 } {
                let depth = match (len, thorough) {
                    (1, false) | (1 | 2, true) => 3,
                    (2, false) | (3, true) => 2,
                    _ => 0,
                };
                all_chains(&alphabet, len, &mut |msgs| {
                    if mc.expired() {
                        return;
                    }
                    let name = msgs.iter().map(|m| format!("{:?}", &m.chars().take(3).collect::<String>())).collect::<Vec<_>>().join("<-");
                    mc.guard_at(name, |mc| {
                        mc.at("same", |mc| ways(mc, &|| er(msgs), msgs, depth));
                        mc.at("mixed", |mc| ways(mc, &|| mixed(msgs), msgs, 0));
                        if len <= 2 {
                            mc.at("box", |mc| ways(mc, &|| Box::new(er(msgs)), msgs, 0));
                            mc.at("arc", |mc| ways(mc, &|| Arc::new(er(msgs)), msgs, 0));
                        }
                    });
                });
            }
            // Long ones
            for len in (1..=if thorough { 400 } else { 150 }).chain([1000]) {
                if mc.expired() {
                    return;
                }
                let msgs: Vec<String> = (0..len).map(|i| format!("cause {i}")).collect();
                let same: Vec<String> = vec!["same".into(); len];
                mc.guard_at(format!("long{len}"), |mc| {
                    mc.at("distinct", |mc| ways(mc, &|| er(&msgs), &msgs, 0));
                    mc.at("same", |mc| ways(mc, &|| mixed(&same), &same, 0));
                });
            }
        });
    }
}
