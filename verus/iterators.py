import extract
CORE = "std:core/src/"
ITER = CORE + "iter/traits/iterator.rs"
FILTER = CORE + "iter/adapters/filter.rs"
MAP = CORE + "iter/adapters/map.rs"
SLICE = CORE + "slice/iter/macros.rs"
CMP = CORE + "cmp.rs"
FN = [("FnMut", "Fn", "the closures here keep no state"), ("[const]", "", "called as any function"),
      ("+ Destruct", "", "called as any function"), ("const fn", "fn", "called as any function")]
ONE = "the instance over slice::Iter"
REC = "#[verifier::reject_recursive_types(T)]\n"
END = """requires self.ready(), orders__(compare), answers__(compare),
ensures match r {
    Some(x) => exists|s: Seq<Self::Item>| #[trigger] self.gives(s) && end_of__(s, compare, x, Ordering::%s),
    None => self.gives(seq![]),
}"""
USED = "forall|x: &T, y: &T| #[trigger] compare.requires((x, y))"


def pair(name, never):
    """cmp::min_by, the closure around it, and Iterator::min_by; or max_by"""
    return [
        {"file": CMP, "name": name, "sig": [("FnOnce", "Fn", "the closures here keep no state"),
                                            (name, "cmp_" + name, "one name for each")] + FN +
         [("compare: F", "compare: &F", "it is given a reference to the closure"), ("T: Destruct", "T", "called as any function")],
         "contract": "requires %s,\nensures pick__(*compare, v1, v2, r, Ordering::%s)," % (USED, never)},
        {"file": ITER, "name": "fold", "within": ("Iterator", name), "key": name + "::fold",
         "sig": [("fold<T>", name + "_fold__<T, F: Fn(&T, &T) -> Ordering>", "one name for each"),
                 ("mut compare: impl FnMut(&T, &T) -> Ordering", "compare: F", "the closure's type named"),
                 ("impl FnMut", "impl Fn", "the closures here keep no state")],
         "replace": [("cmp::" + name, "cmp_" + name, "one name for each"),
                     ("&mut compare", "&compare", "the closures here keep no state")],
         "hooks": [extract.closure_returned("x: T, y: T", "T) ensures pick__(compare, x, y, o__, Ordering::%s" % never)],
         "contract": "requires %s,\nensures total__(r), picks__(compare, r, Ordering::%s)," % (USED, never)},
    ]


def method(name, never):
    return {"sig": FN, "hooks": [extract.drop_inner_function("fold")],
            "replace": [("self.reduce(fold(", "self.reduce(%s_fold__(" % name, "one name for each")],
            "ghost": "broadcast use folds_to_end__;\n", "contract": END % never}


FOLD = "requires self.ready(), total__(f),\nensures exists|s: Seq<Self::Item>| #[trigger] self.gives(s) && folded__(s, f, init, r)"
UNIT = {
    "trusted": [
        "slice::Iter's pointers (next, length, the item at an address), Ordering::{is_le, is_gt}: assumed; bounded check: "
        "std_find, std_filter, std_least",
        "that a call of a closure which is allowed has an outcome; closures are those that keep no state (FnMut as Fn)",
    ],
    "prelude": "iterators.rs",
    "uses": "use core::cmp::Ordering;\n",
    "types": [
        {"file": FILTER, "name": "Filter", "derive": REC, "replace": [("<I, P>", "<T, P>", ONE), ("iter: I", "iter: Iter<T>", ONE), ("pub(crate)", "", "visibility")]},
        {"file": MAP, "name": "Map", "derive": REC, "replace": [("<I, F>", "<T, F>", ONE), ("iter: I", "iter: Iter<T>", ONE), ("pub(crate)", "", "visibility")]},
    ],
    "free": pair("min_by", "Greater") + pair("max_by", "Less") + [
        {"file": FILTER, "name": "filter_fold",
         "sig": [("<T, Acc>", "<T, Acc, P: Fn(&T) -> bool, G: Fn(Acc, T) -> Acc>", "the closures' types named"),
                 ("mut predicate: impl FnMut(&T) -> bool", "predicate: P", "the closures' types named"),
                 ("mut fold: impl FnMut(Acc, T) -> Acc", "fold: G", "the closures' types named"),
                 ("impl FnMut", "impl Fn", "the closures here keep no state")],
         "hooks": [extract.closure_returned("acc: Acc, item: T", "Acc) ensures kept__(predicate, fold, acc, item, o__")],
         "contract": "requires total_ref__(predicate), total__(fold),\nensures total__(r), filtering__(predicate, fold, r),"},
        {"file": MAP, "name": "map_fold",
         "sig": [("<T, B, Acc>", "<T, B, Acc, F: Fn(T) -> B, G: Fn(Acc, B) -> Acc>", "the closures' types named"),
                 ("mut f: impl FnMut(T) -> B", "f: F", "the closures' types named"),
                 ("mut g: impl FnMut(Acc, B) -> Acc", "g: G", "the closures' types named"),
                 ("impl FnMut", "impl Fn", "the closures here keep no state")],
         "hooks": [extract.closure_returned("acc: Acc, elt: T", "Acc) ensures put__(f, g, acc, elt, o__")],
         "contract": "requires total1__(f), total__(g),\nensures total__(r), mapping__(f, g, r),"},
    ],
    "impls": [
        {"file": SLICE, "anywhere": ["find", "fold"], "as": "impl<T> Iter<T>", "label": "slice::Iter::", "functions": {
            "find": {
                "sig": [("mut predicate: P", "predicate: &P", "a closure, or a reference to one"), ("Self::Item", "T", ONE)] + FN,
                "contract": """requires total_ref__(*predicate),
ensures match r {
    Some(x) => exists|i: int| found_at__(old(self).rest(), *predicate, i) && x == old(self).rest()[i]
        && final(self).rest() == old(self).rest().skip(i + 1),
    None => none_meets__(old(self).rest(), *predicate, old(self).rest().len() as int) && final(self).rest().len() == 0,
},""",
                "ghost": "let ghost all = self.rest();\nlet ghost mut n = 0int;\n",
                "loops": ["""    invariant 0 <= n <= all.len(), all == old(self).rest(), self.rest() == all.skip(n),
        total_ref__(*predicate), none_meets__(all, *predicate, n),
    ensures self.rest().len() == 0, n == all.len(),
    decreases self.rest().len()"""],
                "loop_proofs": ["proof { n = n + 1; assert(x == all[n - 1]); "
                                "assert(predicate.ensures((&x,), true) ==> found_at__(all, *predicate, n - 1)); }"]},
            "fold": {
                "sig": [("mut f: F", "f: F", "the closures here keep no state"), ("Self::Item", "T", ONE)] + FN,
                "replace": [("is_empty!(self)", "self.len__() == 0", "the length, not its address"),
                            ("len!(self)", "self.len__()", "the length, not its address"),
                            ("& $( $mut_ )? *self.ptr.add(i).as_ptr()", "self.item__(i)", "an item by its address"),
                            ("i.unchecked_add(1)", "i + 1", "that it does not overflow is an obligation")],
                "contract": "requires total__(f),\nensures folded__(self.rest(), f, init, r),",
                "ghost": "let ghost s = self.rest();\nbroadcast use one_more_folded__;\n"
                         "proof { none_folded__(s, f, init); assert(s.take(s.len() as int) =~= s); }\n",
                "loops": ["""    invariant_except_break i < len,
    invariant 0 <= i <= len, len == s.len(), s == self.rest(), total__(f), folded__(s.take(i as int), f, init, acc),
    ensures i == len,
    decreases len - i"""],
                "loop_proofs": ["broadcast use one_more_folded__;"]},
        }},
        {"file": ITER, "of_trait": "Iterator", "as": "pub trait Iterator__: Sized", "label": "Iterator::", "only": True,
         "consts": False, "trait": True,
         "prefix": """type Item;
/// whether this may be what it gives from here on
spec fn gives(&self, s: Seq<Self::Item>) -> bool;
spec fn ready(&self) -> bool;
fn next(&mut self) -> (r: Option<Self::Item>)
    requires old(self).ready(),
    ensures final(self).ready(), match r {
        Some(x) => forall|s: Seq<Self::Item>| #[trigger] final(self).gives(s) ==> old(self).gives(seq![x] + s),
        None => old(self).gives(seq![]),
    };
fn fold<Acc, G: Fn(Acc, Self::Item) -> Acc>(self, init: Acc, f: G) -> (r: Acc)
    """ + FOLD + ";\n",
         "functions": {
             "reduce": {
                 "sig": [("mut self", "self", "a parameter that is changed is a variable")] + FN,
                 "replace": [("self", "me__", "a parameter that is changed is a variable")],
                 "ghost": "let mut me__ = self;\nproof { skip_first__::<Self::Item>(); }\n",
                 "contract": """requires self.ready(), total__(f),
ensures match r {
    Some(x) => exists|s: Seq<Self::Item>| #[trigger] self.gives(s) && s.len() > 0 && folded__(s.skip(1), f, s[0], x),
    None => self.gives(seq![]),
}"""},
             "min_by": method("min_by", "Greater"),
             "max_by": method("max_by", "Less"),
         }},
        {"file": FILTER, "head": "impl<I,P>Filter<I,P>", "as": "impl<T, P> Filter<T, P>", "label": "Filter::", "only": True,
         "functions": {"new": {"sig": [("const fn", "fn", "called as any function"), ("iter: I", "iter: Iter<T>", ONE),
                                       ("Filter<I, P>", "Filter<T, P>", ONE)],
                               "contract": "ensures r.iter == iter, r.predicate == predicate,"}}},
        {"file": FILTER, "head": "impl<I:Iterator,P>IteratorforFilter<I,P>whereP:FnMut\\(&I::Item\\)->bool,",
         "as": "impl<T, P: Fn(&T) -> bool> Iterator__ for Filter<T, P>", "label": "Filter::", "only": True, "consts": False,
         "trait": True,
         "prefix": """type Item = T;
open spec fn ready(&self) -> bool { total_ref__(self.predicate) }
open spec fn gives(&self, s: Seq<T>) -> bool { filters__(self.iter.rest(), self.predicate, s) }
""",
         "functions": {
             "next": {"sig": [("I::Item", "T", ONE)], "contract": "",
                      "replace": [("&mut self.predicate", "&self.predicate", "the closures here keep no state")],
                      "ghost": "proof { filter_nexts__(self.predicate, self.iter.rest()); }\n"},
             "fold": {"sig": [("<Acc, Fold>", "<Acc, G>", "the trait's name of the type"), ("fold: Fold", "fold: G", "the trait's name of the type"),
                              ("Fold:", "G:", "the trait's name of the type"), ("Self::Item", "T", ONE)] + FN,
                      "ghost": "broadcast use filter_folded__;\nproof { assert(forall|s: Seq<T>| #[trigger] filters__("
                               "self.iter.rest(), self.predicate, s) ==> self.gives(s)); }\n", "contract": ""},
         }},
        {"file": MAP, "head": "impl<I,F>Map<I,F>", "as": "impl<T, F> Map<T, F>", "label": "Map::", "only": True,
         "functions": {"new": {"sig": [("const fn", "fn", "called as any function"), ("iter: I", "iter: Iter<T>", ONE),
                                       ("Map<I, F>", "Map<T, F>", ONE)],
                               "contract": "ensures r.iter == iter, r.f == f,"}}},
        {"file": MAP, "head": "impl<B,I:Iterator,F>IteratorforMap<I,F>whereF:FnMut\\(I::Item\\)->B,",
         "as": "impl<T, B, F: Fn(T) -> B> Iterator__ for Map<T, F>", "label": "Map::", "only": True, "consts": False,
         "trait": True,
         "prefix": """type Item = B;
open spec fn ready(&self) -> bool { total1__(self.f) }
open spec fn gives(&self, s: Seq<B>) -> bool { maps__(self.iter.rest(), self.f, s) }
""",
         "functions": {
             "next": {"contract": "", "replace": [("self.iter.next().map(&mut self.f)", "match self.iter.next() { Some(x) => Some((self.f)(x)), None => None }", "Option::map written out")]},
             "fold": {"sig": [("Self::Item", "B", ONE)] + FN,
                      "ghost": "broadcast use map_folded__;\nproof { assert(forall|s: Seq<B>| #[trigger] maps__("
                               "self.iter.rest(), self.f, s) ==> self.gives(s)); }\n", "contract": ""},
         }},
    ],
}
