//! Stand-in for the part of chumsky (1.0.0-alpha.4, git 87ff69a) that /repo's
//! parser is written against.  The real crate is a git dependency that cannot
//! be fetched here.  Semantics follow chumsky's: ordered choice with rewind,
//! greedy repetition, `map` closures not run in check mode, `parse` requires
//! the end of the input, an error whenever there is no output.
//! It is part of the trusted base and validated by /repo's own parser tests
//! (tools/selftest.sh).

use std::{marker::PhantomData, rc::Rc};

pub mod input {
    use super::*;

    pub trait Input<'a>: 'a {
        type Token: 'a;
        type Span: Clone;
        fn token(&self, at: usize) -> Option<&'a Self::Token>;
        fn make_span(start: usize, end: usize) -> Self::Span;
    }
    pub trait ValueInput<'a>: Input<'a> {}
    pub trait BorrowInput<'a>: Input<'a> {}

    impl<'a, T: 'a> Input<'a> for &'a [T] {
        type Token = T;
        type Span = span::SimpleSpan<usize>;
        fn token(&self, at: usize) -> Option<&'a T> {
            self.get(at)
        }
        fn make_span(start: usize, end: usize) -> Self::Span {
            span::SimpleSpan::new(start, end)
        }
    }
    impl<'a, T: 'a + Clone> ValueInput<'a> for &'a [T] {}
    impl<'a, T: 'a> BorrowInput<'a> for &'a [T] {}

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Offset(pub(crate) usize);
    #[derive(Clone, Copy, Debug)]
    pub struct Marker(pub(crate) usize);
    impl Marker {
        pub fn offset(self) -> Offset {
            Offset(self.0)
        }
    }

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: extra::ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) at: usize,
        /// furthest place a parser failed at
        pub(crate) alt: usize,
        pub(crate) phantom: PhantomData<(&'a (), E)>,
    }

    impl<'a, 'parse, I: Input<'a>, E: extra::ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn offset(&self) -> Offset {
            Offset(self.at)
        }
        pub fn save(&self) -> Marker {
            Marker(self.at)
        }
        pub fn rewind(&mut self, marker: Marker) {
            self.at = marker.0;
        }
        pub fn span_since(&self, before: Offset) -> I::Span {
            I::make_span(before.0, self.at)
        }
        pub fn span(&self, range: std::ops::Range<Offset>) -> I::Span {
            I::make_span(range.start.0, range.end.0)
        }
        pub(crate) fn next_ref(&mut self) -> Option<&'a I::Token> {
            let token = self.input.token(self.at);
            if token.is_some() {
                self.at += 1;
            }
            token
        }
        pub fn next_maybe(&mut self) -> Option<util::MaybeRef<'a, I::Token>> {
            self.next_ref().map(util::MaybeRef::Ref)
        }
        pub fn peek_maybe(&self) -> Option<util::MaybeRef<'a, I::Token>> {
            self.input.token(self.at).map(util::MaybeRef::Ref)
        }
        pub fn next(&mut self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.next_ref().cloned()
        }
        pub fn peek(&self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.input.token(self.at).cloned()
        }
        pub fn skip(&mut self) {
            self.next_ref();
        }
        pub(crate) fn fail<T>(&mut self, at: usize) -> Result<T, ()> {
            self.alt = self.alt.max(at);
            Err(())
        }
        pub(crate) fn error(&self) -> E::Error {
            let found = self.input.token(self.alt).map(util::MaybeRef::Ref);
            let end = if found.is_some() { self.alt + 1 } else { self.alt };
            <E::Error as error::Error<'a, I>>::expected_found(None, found, I::make_span(self.alt, end))
        }
        pub fn parse<O, P: Parser<'a, I, O, E> + ?Sized>(&mut self, parser: &P) -> Result<O, E::Error> {
            parser.go(self).map_err(|()| self.error())
        }
        pub fn check<O, P: Parser<'a, I, O, E> + ?Sized>(&mut self, parser: &P) -> Result<(), E::Error> {
            parser.go_check(self).map_err(|()| self.error())
        }
    }
}

pub mod span {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct SimpleSpan<T = usize, C = ()> {
        pub start: T,
        pub end: T,
        #[doc(hidden)]
        pub(crate) _c: std::marker::PhantomData<C>,
    }
    impl<T> SimpleSpan<T> {
        pub fn new(start: T, end: T) -> Self {
            SimpleSpan { start, end, _c: std::marker::PhantomData }
        }
        pub fn into_range(self) -> std::ops::Range<T> {
            self.start..self.end
        }
        pub fn start(&self) -> T
        where
            T: Clone,
        {
            self.start.clone()
        }
        pub fn end(&self) -> T
        where
            T: Clone,
        {
            self.end.clone()
        }
    }
    impl<T> From<std::ops::Range<T>> for SimpleSpan<T> {
        fn from(r: std::ops::Range<T>) -> Self {
            SimpleSpan::new(r.start, r.end)
        }
    }
    impl<T> From<SimpleSpan<T>> for std::ops::Range<T> {
        fn from(s: SimpleSpan<T>) -> Self {
            s.start..s.end
        }
    }
    impl<T: std::fmt::Display> std::fmt::Display for SimpleSpan<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}..{}", self.start, self.end)
        }
    }
}

pub mod util {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Maybe<T, R: std::ops::Deref<Target = T>> {
        Ref(R),
        Val(T),
    }
    pub type MaybeRef<'a, T> = Maybe<T, &'a T>;
    impl<T, R: std::ops::Deref<Target = T>> Maybe<T, R> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                Maybe::Ref(r) => (*r).clone(),
                Maybe::Val(v) => v,
            }
        }
    }
    impl<T, R: std::ops::Deref<Target = T>> std::ops::Deref for Maybe<T, R> {
        type Target = T;
        fn deref(&self) -> &T {
            match self {
                Maybe::Ref(r) => r,
                Maybe::Val(v) => v,
            }
        }
    }
}

pub mod error {
    use super::*;
    pub trait Error<'a, I: input::Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<util::MaybeRef<'a, I::Token>>>>(
            expected: E,
            found: Option<util::MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
        fn merge(self, _other: Self) -> Self {
            self
        }
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct EmptyErr(());
    impl<'a, I: input::Input<'a>> Error<'a, I> for EmptyErr {
        fn expected_found<E: IntoIterator<Item = Option<util::MaybeRef<'a, I::Token>>>>(
            _: E,
            _: Option<util::MaybeRef<'a, I::Token>>,
            _: I::Span,
        ) -> Self {
            EmptyErr(())
        }
    }
}

pub mod extra {
    use super::*;
    pub trait ParserExtra<'a, I: input::Input<'a>>: 'a {
        type Error: error::Error<'a, I> + 'a;
        type State: 'a;
        type Context: 'a;
    }
    pub struct Full<E, S, C>(PhantomData<(E, S, C)>);
    impl<'a, I: input::Input<'a>, E: error::Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> {
        type Error = E;
        type State = S;
        type Context = C;
    }
    pub type Err<E> = Full<E, (), ()>;
    pub type Default = Err<error::EmptyErr>;
}

pub mod cache {
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached> Cache<C> {
        pub fn new(cacher: C) -> Self {
            Cache { parser: cacher.make_parser() }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            // as in chumsky: the parser was made for any lifetime
            unsafe { &*(&self.parser as *const C::Parser<'static> as *const C::Parser<'src>) }
        }
    }
}

pub mod extension {
    pub mod v1 {
        use crate::*;
        pub trait ExtParser<'a, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[derive(Clone, Copy)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>, T: ExtParser<'a, I, O, E>> Parser<'a, I, O, E> for Ext<T> {
            fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()> {
                let before = inp.at;
                match self.0.parse(inp) {
                    Ok(v) => Ok(v),
                    Err(_) => inp.fail(before),
                }
            }
            fn go_check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
                let before = inp.at;
                match self.0.check(inp) {
                    Ok(v) => Ok(v),
                    Err(_) => inp.fail(before),
                }
            }
        }
    }
}

pub mod primitive {
    use super::*;

    pub trait OrderedSeq<T> {
        fn tokens(&self) -> Vec<&T>;
    }
    impl<T> OrderedSeq<T> for T {
        fn tokens(&self) -> Vec<&T> {
            vec![self]
        }
    }
    impl<T> OrderedSeq<T> for Vec<T> {
        fn tokens(&self) -> Vec<&T> {
            self.iter().collect()
        }
    }
    impl<T, const N: usize> OrderedSeq<T> for [T; N] {
        fn tokens(&self) -> Vec<&T> {
            self.iter().collect()
        }
    }

    pub struct Just<T, I, E> {
        seq: T,
        phantom: PhantomData<(E, I)>,
    }
    impl<T: Clone, I, E> Clone for Just<T, I, E> {
        fn clone(&self) -> Self {
            Just { seq: self.seq.clone(), phantom: PhantomData }
        }
    }
    impl<T: Copy, I, E> Copy for Just<T, I, E> {}
    pub fn just<'a, T, I, E>(seq: T) -> Just<T, I, E>
    where
        I: input::Input<'a>,
        E: extra::ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token> + Clone,
    {
        Just { seq, phantom: PhantomData }
    }
    impl<'a, I, E, T> Parser<'a, I, T, E> for Just<T, I, E>
    where
        I: input::Input<'a>,
        E: extra::ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token> + Clone,
    {
        fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<T, ()> {
            self.go_check(inp)?;
            Ok(self.seq.clone())
        }
        fn go_check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
            for t in self.seq.tokens() {
                let before = inp.at;
                if inp.next_ref() != Some(t) {
                    return inp.fail(before);
                }
            }
            Ok(())
        }
    }

    pub struct End<I, E>(PhantomData<(E, I)>);
    impl<I, E> Clone for End<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for End<I, E> {}
    pub fn end<'a, I: input::Input<'a>, E: extra::ParserExtra<'a, I>>() -> End<I, E> {
        End(PhantomData)
    }
    impl<'a, I: input::Input<'a>, E: extra::ParserExtra<'a, I>> Parser<'a, I, (), E> for End<I, E> {
        fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
            if inp.input.token(inp.at).is_none() {
                Ok(())
            } else {
                inp.fail(inp.at)
            }
        }
    }

    pub struct Empty<I, E>(PhantomData<(E, I)>);
    pub fn empty<'a, I: input::Input<'a>, E: extra::ParserExtra<'a, I>>() -> Empty<I, E> {
        Empty(PhantomData)
    }
    impl<'a, I: input::Input<'a>, E: extra::ParserExtra<'a, I>> Parser<'a, I, (), E> for Empty<I, E> {
        fn go(&self, _: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
            Ok(())
        }
    }

    pub struct Any<I, E>(PhantomData<(E, I)>);
    impl<I, E> Clone for Any<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for Any<I, E> {}
    pub fn any<'a, I: input::Input<'a>, E: extra::ParserExtra<'a, I>>() -> Any<I, E> {
        Any(PhantomData)
    }
    impl<'a, I: input::Input<'a>, E: extra::ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for Any<I, E>
    where
        I::Token: Clone,
    {
        fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<I::Token, ()> {
            let before = inp.at;
            match inp.next_ref() {
                Some(t) => Ok(t.clone()),
                None => inp.fail(before),
            }
        }
    }

    pub struct Select<F, I, O, E> {
        f: F,
        phantom: PhantomData<(E, O, I)>,
    }
    impl<F: Clone, I, O, E> Clone for Select<F, I, O, E> {
        fn clone(&self) -> Self {
            Select { f: self.f.clone(), phantom: PhantomData }
        }
    }
    impl<F: Copy, I, O, E> Copy for Select<F, I, O, E> {}
    pub fn select<'a, F, I, O, E>(f: F) -> Select<F, I, O, E>
    where
        I: input::Input<'a>,
        E: extra::ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select { f, phantom: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I: input::Input<'a>,
        I::Token: Clone,
        E: extra::ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.at;
            match inp.next_ref() {
                Some(t) => match (self.f)(t.clone(), I::make_span(before, before + 1)) {
                    Some(v) => Ok(v),
                    None => inp.fail(before),
                },
                None => inp.fail(before),
            }
        }
    }

    pub struct SelectRef<F, I, O, E> {
        f: F,
        phantom: PhantomData<(E, O, I)>,
    }
    impl<F: Clone, I, O, E> Clone for SelectRef<F, I, O, E> {
        fn clone(&self) -> Self {
            SelectRef { f: self.f.clone(), phantom: PhantomData }
        }
    }
    impl<F: Copy, I, O, E> Copy for SelectRef<F, I, O, E> {}
    pub fn select_ref<'a, F, I, O, E>(f: F) -> SelectRef<F, I, O, E>
    where
        I: input::Input<'a>,
        E: extra::ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef { f, phantom: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        I: input::Input<'a>,
        E: extra::ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.at;
            match inp.next_ref() {
                Some(t) => match (self.f)(t, I::make_span(before, before + 1)) {
                    Some(v) => Ok(v),
                    None => inp.fail(before),
                },
                None => inp.fail(before),
            }
        }
    }

    #[derive(Clone, Copy)]
    pub struct Choice<T> {
        parsers: T,
    }
    pub fn choice<T>(parsers: T) -> Choice<T> {
        Choice { parsers }
    }
    impl<'a, A, I, O, E> Parser<'a, I, O, E> for Choice<Vec<A>>
    where
        A: Parser<'a, I, O, E>,
        I: input::Input<'a>,
        E: extra::ParserExtra<'a, I>,
    {
        fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            for p in &self.parsers {
                inp.rewind(before);
                if let Ok(v) = p.go(inp) {
                    return Ok(v);
                }
            }
            inp.rewind(before);
            inp.fail(before.0)
        }
        fn go_check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            for p in &self.parsers {
                inp.rewind(before);
                if p.go_check(inp).is_ok() {
                    return Ok(());
                }
            }
            inp.rewind(before);
            inp.fail(before.0)
        }
    }
    macro_rules! tuple_choice {
        ($($x:ident)+) => {
            #[allow(non_snake_case)]
            impl<'a, I, O, E, $($x),+> Parser<'a, I, O, E> for Choice<($($x,)+)>
            where
                I: input::Input<'a>,
                E: extra::ParserExtra<'a, I>,
                $($x: Parser<'a, I, O, E>),+
            {
                fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()> {
                    let before = inp.save();
                    let ($($x,)+) = &self.parsers;
                    $(
                        inp.rewind(before);
                        if let Ok(v) = $x.go(inp) {
                            return Ok(v);
                        }
                    )+
                    inp.rewind(before);
                    inp.fail(before.0)
                }
                fn go_check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
                    let before = inp.save();
                    let ($($x,)+) = &self.parsers;
                    $(
                        inp.rewind(before);
                        if $x.go_check(inp).is_ok() {
                            return Ok(());
                        }
                    )+
                    inp.rewind(before);
                    inp.fail(before.0)
                }
            }
        };
    }
    tuple_choice!(A);
    tuple_choice!(A B);
    tuple_choice!(A B C);
    tuple_choice!(A B C D);
    tuple_choice!(A B C D F);
    tuple_choice!(A B C D F G);
}

pub struct ParseResult<T, E> {
    output: Option<T>,
    errs: Vec<E>,
}
impl<T, E> ParseResult<T, E> {
    pub fn has_output(&self) -> bool {
        self.output.is_some()
    }
    pub fn has_errors(&self) -> bool {
        !self.errs.is_empty()
    }
    pub fn output(&self) -> Option<&T> {
        self.output.as_ref()
    }
    pub fn errors(&self) -> impl Iterator<Item = &E> {
        self.errs.iter()
    }
    pub fn into_output(self) -> Option<T> {
        self.output
    }
    pub fn into_errors(self) -> Vec<E> {
        self.errs
    }
    pub fn into_output_errors(self) -> (Option<T>, Vec<E>) {
        (self.output, self.errs)
    }
    pub fn into_result(self) -> Result<T, Vec<E>> {
        if self.errs.is_empty() {
            self.output.ok_or(self.errs)
        } else {
            Err(self.errs)
        }
    }
}

pub trait Parser<'a, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()>;
    #[doc(hidden)]
    fn go_check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
        self.go(inp).map(|_| ())
    }

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
    {
        let mut inp = input::InputRef::<I, E> { input: &input, at: 0, alt: 0, phantom: PhantomData };
        match self.go(&mut inp) {
            Ok(v) if inp.input.token(inp.at).is_none() => ParseResult { output: Some(v), errs: vec![] },
            r => {
                if r.is_ok() {
                    inp.alt = inp.alt.max(inp.at);
                }
                ParseResult { output: None, errs: vec![inp.error()] }
            }
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> combinator::Map<Self, O, F>
    where
        Self: Sized,
    {
        combinator::Map { a: self, f, phantom: PhantomData }
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> combinator::MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        combinator::MapWithSpan { a: self, f, phantom: PhantomData }
    }
    fn to<U: Clone>(self, to: U) -> combinator::To<Self, O, U>
    where
        Self: Sized,
    {
        combinator::To { a: self, to, phantom: PhantomData }
    }
    fn ignored(self) -> combinator::To<Self, O, ()>
    where
        Self: Sized,
    {
        self.to(())
    }
    fn filter<F: Fn(&O) -> bool>(self, f: F) -> combinator::Filter<Self, F>
    where
        Self: Sized,
    {
        combinator::Filter { a: self, f }
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::Then<Self, B, O, U, E>
    where
        Self: Sized,
    {
        combinator::Then { a: self, b: other, phantom: PhantomData }
    }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::ThenIgnore<Self, B, U, E>
    where
        Self: Sized,
    {
        combinator::ThenIgnore { a: self, b: other, phantom: PhantomData }
    }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::IgnoreThen<Self, B, O, E>
    where
        Self: Sized,
    {
        combinator::IgnoreThen { a: self, b: other, phantom: PhantomData }
    }
    fn or<B: Parser<'a, I, O, E>>(self, other: B) -> primitive::Choice<(Self, B)>
    where
        Self: Sized,
    {
        primitive::choice((self, other))
    }
    fn or_not(self) -> combinator::OrNot<Self>
    where
        Self: Sized,
    {
        combinator::OrNot { a: self }
    }
    fn not(self) -> combinator::Not<Self, O>
    where
        Self: Sized,
    {
        combinator::Not { a: self, phantom: PhantomData }
    }
    fn rewind(self) -> combinator::Rewind<Self>
    where
        Self: Sized,
    {
        combinator::Rewind { a: self }
    }
    fn repeated(self) -> combinator::Repeated<Self, O, I, E>
    where
        Self: Sized,
    {
        combinator::Repeated { a: self, min: 0, max: usize::MAX, phantom: PhantomData }
    }
    fn with_ctx(self, ctx: E::Context) -> combinator::WithCtx<Self, E::Context>
    where
        Self: Sized,
    {
        combinator::WithCtx { a: self, ctx }
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'b,
    {
        Boxed { inner: Rc::new(self) }
    }
}

pub trait IterParser<'a, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn go_iter(&self, inp: &mut input::InputRef<'a, '_, I, E>, out: Option<&mut dyn FnMut(O)>) -> Result<(), ()>;
    fn collect<C: Extend<O> + Default>(self) -> combinator::Collect<Self, O, C>
    where
        Self: Sized,
    {
        combinator::Collect { a: self, phantom: PhantomData }
    }
}

pub struct Boxed<'a, 'b, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>> {
    inner: Rc<dyn Parser<'a, I, O, E> + 'b>,
}
impl<'a, 'b, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> {
    fn clone(&self) -> Self {
        Boxed { inner: self.inner.clone() }
    }
}
impl<'a, 'b, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, ()> {
        self.inner.go(inp)
    }
    fn go_check(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<(), ()> {
        self.inner.go_check(inp)
    }
}

pub mod combinator {
    use super::*;
    use extra::ParserExtra;
    use input::{Input, InputRef};

    macro_rules! cloneable {
        ($name:ident<$($g:ident),*> { $($f:ident : $t:ident),* } phantom $($p:ident),*) => {
            pub struct $name<$($g),*> {
                $(pub(crate) $f: $t,)*
                pub(crate) phantom: PhantomData<($($p,)*)>,
            }
            impl<$($g),*> Clone for $name<$($g),*> where $($t: Clone),* {
                fn clone(&self) -> Self {
                    $name { $($f: self.$f.clone(),)* phantom: PhantomData }
                }
            }
            impl<$($g),*> Copy for $name<$($g),*> where $($t: Copy),* {}
        };
    }
    cloneable!(Map<A, OA, F> { a: A, f: F } phantom OA);
    cloneable!(MapWithSpan<A, OA, F> { a: A, f: F } phantom OA);
    cloneable!(To<A, OA, U> { a: A, to: U } phantom OA);
    cloneable!(Then<A, B, OA, OB, E> { a: A, b: B } phantom OA, OB, E);
    cloneable!(ThenIgnore<A, B, OB, E> { a: A, b: B } phantom OB, E);
    cloneable!(IgnoreThen<A, B, OA, E> { a: A, b: B } phantom OA, E);
    cloneable!(Not<A, OA> { a: A } phantom OA);
    cloneable!(Collect<A, O, C> { a: A } phantom O, C);

    #[derive(Clone, Copy)]
    pub struct Filter<A, F> {
        pub(crate) a: A,
        pub(crate) f: F,
    }
    #[derive(Clone, Copy)]
    pub struct OrNot<A> {
        pub(crate) a: A,
    }
    #[derive(Clone, Copy)]
    pub struct Rewind<A> {
        pub(crate) a: A,
    }
    #[derive(Clone, Copy)]
    pub struct WithCtx<A, C> {
        pub(crate) a: A,
        #[allow(dead_code)]
        pub(crate) ctx: C,
    }

    pub struct Repeated<A, OA, I, E> {
        pub(crate) a: A,
        pub(crate) min: usize,
        pub(crate) max: usize,
        pub(crate) phantom: PhantomData<(OA, E, I)>,
    }
    impl<A: Clone, OA, I, E> Clone for Repeated<A, OA, I, E> {
        fn clone(&self) -> Self {
            Repeated { a: self.a.clone(), min: self.min, max: self.max, phantom: PhantomData }
        }
    }
    impl<A: Copy, OA, I, E> Copy for Repeated<A, OA, I, E> {}
    impl<A, OA, I, E> Repeated<A, OA, I, E> {
        pub fn at_least(self, min: usize) -> Self {
            Self { min, ..self }
        }
        pub fn at_most(self, max: usize) -> Self {
            Self { max, ..self }
        }
        pub fn exactly(self, n: usize) -> Self {
            Self { min: n, max: n, ..self }
        }
    }

    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F: Fn(OA) -> O> Parser<'a, I, O, E> for Map<A, OA, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            self.a.go(inp).map(&self.f)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F: Fn(OA, I::Span) -> O> Parser<'a, I, O, E>
        for MapWithSpan<A, OA, F>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.offset();
            let v = self.a.go(inp)?;
            Ok((self.f)(v, inp.span_since(before)))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)
        }
    }
    impl<'a, I: Input<'a>, O: Clone, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA> Parser<'a, I, O, E> for To<A, OA, O> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            self.a.go_check(inp)?;
            Ok(self.to.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(&O) -> bool> Parser<'a, I, O, E> for Filter<A, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.at;
            let v = self.a.go(inp)?;
            if (self.f)(&v) {
                Ok(v)
            } else {
                inp.fail(before)
            }
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, OA, OB> Parser<'a, I, (OA, OB), E>
        for Then<A, B, OA, OB, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), ()> {
            let a = self.a.go(inp)?;
            let b = self.b.go(inp)?;
            Ok((a, b))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)?;
            self.b.go_check(inp)
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, OA, OB> Parser<'a, I, OA, E>
        for ThenIgnore<A, B, OB, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, ()> {
            let a = self.a.go(inp)?;
            self.b.go_check(inp)?;
            Ok(a)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)?;
            self.b.go_check(inp)
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, OA, OB> Parser<'a, I, OB, E>
        for IgnoreThen<A, B, OA, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OB, ()> {
            self.a.go_check(inp)?;
            self.b.go(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)?;
            self.b.go_check(inp)
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, O> Parser<'a, I, Option<O>, E> for OrNot<A> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, ()> {
            let before = inp.save();
            match self.a.go(inp) {
                Ok(v) => Ok(Some(v)),
                Err(()) => {
                    inp.rewind(before);
                    Ok(None)
                }
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            if self.a.go_check(inp).is_err() {
                inp.rewind(before);
            }
            Ok(())
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA> Parser<'a, I, (), E> for Not<A, OA> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            let r = self.a.go_check(inp);
            inp.rewind(before);
            match r {
                Ok(()) => inp.fail(before.0),
                Err(()) => Ok(()),
            }
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, O> Parser<'a, I, O, E> for Rewind<A> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            let v = self.a.go(inp)?;
            inp.rewind(before);
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            self.a.go_check(inp)?;
            inp.rewind(before);
            Ok(())
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A, C: 'a> Parser<'a, I, O, E> for WithCtx<A, C>
    where
        A: Parser<'a, I, O, extra::Full<E::Error, E::State, C>>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let mut inner = InputRef { input: inp.input, at: inp.at, alt: inp.alt, phantom: PhantomData };
            let r = self.a.go(&mut inner);
            (inp.at, inp.alt) = (inner.at, inner.alt);
            r
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let mut inner = InputRef { input: inp.input, at: inp.at, alt: inp.alt, phantom: PhantomData };
            let r = self.a.go_check(&mut inner);
            (inp.at, inp.alt) = (inner.at, inner.alt);
            r
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> IterParser<'a, I, O, E> for Repeated<A, O, I, E> {
        fn go_iter(&self, inp: &mut InputRef<'a, '_, I, E>, mut out: Option<&mut dyn FnMut(O)>) -> Result<(), ()> {
            let mut count = 0;
            while count < self.max {
                let before = inp.save();
                let ok = match &mut out {
                    Some(f) => self.a.go(inp).map(|v| f(v)).is_ok(),
                    None => self.a.go_check(inp).is_ok(),
                };
                if !ok {
                    inp.rewind(before);
                    if count < self.min {
                        return Err(());
                    }
                    break;
                }
                if inp.at == before.0 {
                    panic!("found Repeated combinator making no progress at {}", before.0);
                }
                count += 1;
            }
            Ok(())
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, (), E> for Repeated<A, O, I, E> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_iter(inp, None)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: IterParser<'a, I, O, E>, C: Extend<O> + Default> Parser<'a, I, C, E> for Collect<A, O, C> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, ()> {
            let mut c = C::default();
            self.a.go_iter(inp, Some(&mut |v| c.extend(Some(v))))?;
            Ok(c)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_iter(inp, None)
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select(
            move |x, _span| match x {
                $($p $(if $guard)? => ::core::option::Option::Some({ () $(;$out)? })),+,
                _ => ::core::option::Option::None,
            })
    });
}

#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select_ref(
            move |x, _span| match x {
                $($p $(if $guard)? => ::core::option::Option::Some({ () $(;$out)? })),+,
                _ => ::core::option::Option::None,
            })
    });
}

pub mod prelude {
    pub use crate::{
        error::{EmptyErr, Error as _},
        extra,
        input::Input,
        primitive::{any, choice, empty, end, just},
        select, select_ref,
        span::SimpleSpan,
        Boxed, IterParser, ParseResult, Parser,
    };
}
