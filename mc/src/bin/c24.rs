//! The token for testing is of the kind the value was given as, and holds the value.

#[cfg(not(feature = "test"))]
fn main() {
    mc::engine::run("C24", |_| ());
}

#[cfg(feature = "test")]
fn main() {
    imp::main()
}

#[cfg(feature = "test")]
mod imp {
    use mc::{
        engine::{run, Mc},
        routes::{derived, nested},
        spec::{large, specs, tree_specs, ways, How, Model, Space, Spec},
        tree::{trees, Cast},
    };
    use value_bag::{test::TestToken, ValueBag};

    /// A token without the width of integers, which buffering and filling don't keep.
    fn wide(t: &TestToken) -> String {
        match t {
            TestToken::U64(v) => format!("uint({v})"),
            TestToken::U128(v) => format!("uint({v})"),
            TestToken::I64(v) => format!("int({v})"),
            TestToken::I128(v) => format!("int({v})"),
            TestToken::F64(v) => format!("f64({:x})", v.to_bits()),
            t => format!("{t:?}"),
        }
    }

    fn text(s: String) -> Option<TestToken> {
        Some(TestToken::Str(s))
    }

    /// The token a recipe has.
    fn token(s: &Spec) -> Option<TestToken> {
        match s {
            Spec::Null => Some(TestToken::None),
            Spec::U64(v) => Some(TestToken::U64(*v)),
            Spec::I64(v) => Some(TestToken::I64(*v)),
            Spec::U128(v) => Some(TestToken::U128(*v)),
            Spec::I128(v) => Some(TestToken::I128(*v)),
            Spec::F64(v) => Some(TestToken::F64(*v)),
            Spec::Bool(v) => Some(TestToken::Bool(*v)),
            Spec::Char(v) => Some(TestToken::Char(*v)),
            Spec::Str(v) => text(v.clone()),
            Spec::Debug(_) | Spec::CapDebug(_) | Spec::DynDebug(_) => text(format!("{:?}", Model(s))),
            Spec::Display(_) | Spec::CapDisplay(_) | Spec::DynDisplay(_) => text(Model(s).to_string()),
            #[cfg(feature = "error")]
            Spec::CapError(_) | Spec::DynError(_) => Some(TestToken::Error),
            #[cfg(feature = "sval2")]
            Spec::Sval(_) | Spec::CapSval(_) | Spec::DynSval(_) => Some(TestToken::Sval { version: 2 }),
            #[cfg(feature = "serde1")]
            Spec::Serde(_) | Spec::CapSerde(_) => Some(TestToken::Serde { version: 1 }),
            #[cfg(feature = "seq")]
            Spec::Seq(_) => Some(TestToken::Seq),
            Spec::Fill(d) => token(d.inner),
            Spec::Via(how, v) => match how {
                How::Debug | How::CapDebug => text(format!("{:?}", Model(v))),
                How::Display | How::CapDisplay => text(Model(v).to_string()),
                #[cfg(feature = "sval2")]
                How::Sval | How::CapSval | How::DynSval => Some(TestToken::Sval { version: 2 }),
                #[cfg(feature = "serde1")]
                How::Serde | How::CapSerde => Some(TestToken::Serde { version: 1 }),
            },
            #[cfg(feature = "owned")]
            Spec::Static(_, _, v) | Spec::Owned(_, _, v) => token(v),
            _ => None,
        }
    }

    /// The token of the primitive that a structured value is.
    fn primitive(c: Cast) -> Option<TestToken> {
        Some(match c {
            Cast::Null => TestToken::None,
            Cast::Unsigned(v) => TestToken::U128(v),
            Cast::Signed(v) => TestToken::I128(v),
            Cast::Float(v) => TestToken::F64(f64::from_bits(v)),
            Cast::Bool(v) => TestToken::Bool(v),
            Cast::Char(v) => TestToken::Char(v),
            Cast::Text(v) => TestToken::Str(v),
            Cast::Nothing | Cast::Unknown => return None,
        })
    }

    fn exact(s: &Spec) -> bool {
        !matches!(s, Spec::Fill(_)) && !s.buffered()
    }

    fn look(mc: &mut Mc, step: &'static str, bag: &ValueBag, s: &Spec, buffered: bool) {
        mc.enter(step);
        mc.state();
        mc.step();
        let Some(expected) = token(s) else {
            mc.leave();
            return;
        };
        let got = bag.to_test_token();
        mc.outcome(format!("{got:?}").as_bytes());
        let same = wide(&got) == wide(&expected) && (buffered || !exact(s) || format!("{got:?}") == format!("{expected:?}"));
        // Buffering may find that a structured value is just a primitive
        let found = buffered && primitive(s.cast()).map_or(false, |p| wide(&p) == wide(&got));
        mc.ensure("token", same || found, || format!("{got:?}"), &format!("{expected:?}"));
        mc.leave();
    }

    fn one(mc: &mut Mc, s: &Spec) {
        if s.fails() {
            return;
        }
        let bag = s.bag();
        derived(&bag, &mut |step, bag| {
            let buffered = s.buffered() || step.contains("own") || step.contains("share");
            look(mc, step, bag, s, buffered)
        });
        nested(&bag, &mut |step, bag| {
            mc.state();
            mc.step();
            let got = wide(&bag.to_test_token());
            let framework = if step.contains("sval2") {
                "Sval { version: 2 }"
            } else if step.contains("serde1") {
                "Serde { version: 1 }"
            } else {
                return;
            };
            mc.at(step, |mc| mc.eq("token", &got.as_str(), &framework));
        });
        ways(s, &mut |step, bag| look(mc, step, bag, s, step == "filled"));
        mc.trace();
    }

    pub fn main() {
        run("C24", |mc| {
            let (small, deep) = if mc.thorough() { (2, 4) } else { (1, 3) };
            let mut all = specs(Space { tree_depth: small, ..Space::SMALL });
            all.extend(tree_specs(&trees(deep)));
            for k in 0..128 {
                let v = 1u128 << k;
                for v in [v - 1, v, v + 1] {
                    all.extend([Spec::U128(v), Spec::I128(v as i128), Spec::I128((v as i128).wrapping_neg())]);
                    if let Ok(v) = u64::try_from(v) {
                        all.extend([Spec::U64(v), Spec::I64(v as i64), Spec::I64((v as i64).wrapping_neg()), Spec::F64(f64::from_bits(v)), Spec::F64(f64::from_bits(!v))]);
                    }
                    if let Some(v) = u32::try_from(v).ok().and_then(char::from_u32) {
                        all.push(Spec::Char(v));
                    }
                }
            }
            for n in 0..140 {
                all.push(Spec::Str("\u{e9}x".chars().cycle().take(n).collect()));
            }
            let (wide, deep) = if mc.thorough() { (1000, 150) } else { (300, 70) };
            all.extend(large(wide, deep));
            for s in &all {
                if mc.expired() {
                    return;
                }
                mc.guard_at(s.name(), |mc| one(mc, s));
            }
        });
    }
}
