//! Recording model of the part of `cstree` 0.12 the parser uses: a green tree is a plain tree
//! whose tokens own their text; nothing is interned. Used only in the symbolic build (interning
//! would hash symbolic text); counterexamples are replayed against the real cstree.
#![allow(clippy::all)]

pub use cstree_derive::Syntax;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RawSyntaxKind(pub u32);

pub trait Syntax: Sized + Copy + std::fmt::Debug + Eq {
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn into_raw(self) -> RawSyntaxKind;
    fn static_text(self) -> Option<&'static str>;
}

pub mod interning {
    pub struct TokenKey;
    pub trait Resolver {}
    pub trait Interner: Resolver {}
    #[derive(Debug, Default)]
    pub struct TokenInterner;
    impl Resolver for TokenInterner {}
    impl Interner for TokenInterner {}
    impl<R: Resolver + ?Sized> Resolver for &R {}
    impl<R: Resolver + ?Sized> Resolver for &mut R {}
    impl<R: Interner + ?Sized> Interner for &mut R {}
    impl<R: Resolver + ?Sized> Resolver for std::sync::Arc<R> {}
    pub fn new_interner() -> TokenInterner {
        TokenInterner
    }
}

pub mod green {
    use std::rc::Rc;
    #[derive(Debug)]
    pub enum Elem {
        Node(GreenNode),
        Token(Rc<TokenData>),
    }
    #[derive(Debug)]
    pub struct TokenData {
        pub kind: u32,
        pub text: String,
    }
    #[derive(Debug)]
    pub struct NodeData {
        pub kind: u32,
        pub len: usize,
        pub children: Vec<Elem>,
    }
    #[derive(Debug, Clone)]
    pub struct GreenNode(pub Rc<NodeData>);
}

pub mod build {
    use super::{
        green::*,
        interning::{Interner, TokenInterner},
        Syntax,
    };
    use std::{marker::PhantomData, rc::Rc};

    /// As nothing is shared between nodes, a cache holds its interner only.
    pub struct NodeCache<'i, I = TokenInterner>(Own<'i, I>);
    enum Own<'i, I> {
        Owned(I),
        Borrowed(&'i mut I),
    }
    impl NodeCache<'static> {
        pub fn new() -> Self {
            NodeCache(Own::Owned(TokenInterner))
        }
    }
    impl Default for NodeCache<'static> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<'i, I: Interner> NodeCache<'i, I> {
        pub fn with_interner(i: &'i mut I) -> Self {
            NodeCache(Own::Borrowed(i))
        }
        pub fn from_interner(i: I) -> Self {
            NodeCache(Own::Owned(i))
        }
        pub fn interner(&self) -> &I {
            match &self.0 {
                Own::Owned(i) => i,
                Own::Borrowed(i) => i,
            }
        }
        pub fn interner_mut(&mut self) -> &mut I {
            match &mut self.0 {
                Own::Owned(i) => i,
                Own::Borrowed(i) => i,
            }
        }
        pub fn into_interner(self) -> Option<I> {
            match self.0 {
                Own::Owned(i) => Some(i),
                Own::Borrowed(_) => None,
            }
        }
    }
    enum Cache<'c, 'i, I> {
        Owned(NodeCache<'i, I>),
        Borrowed(&'c mut NodeCache<'i, I>),
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Checkpoint {
        parent_idx: usize,
        child_idx: usize,
    }
    pub struct GreenNodeBuilder<'cache, 'interner, S: Syntax, I = TokenInterner> {
        parents: Vec<(u32, usize)>,
        children: Vec<Elem>,
        cache: Cache<'cache, 'interner, I>,
        p: PhantomData<S>,
    }
    fn len(e: &Elem) -> usize {
        match e {
            Elem::Node(n) => n.0.len,
            Elem::Token(t) => t.text.len(),
        }
    }
    impl<S: Syntax> GreenNodeBuilder<'static, 'static, S> {
        pub fn new() -> Self {
            Self { parents: Vec::new(), children: Vec::new(), cache: Cache::Owned(NodeCache::new()), p: PhantomData }
        }
    }
    impl<S: Syntax> Default for GreenNodeBuilder<'static, 'static, S> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<'c, 'i, S: Syntax, I: Interner> GreenNodeBuilder<'c, 'i, S, I> {
        pub fn with_cache(cache: &'c mut NodeCache<'i, I>) -> Self {
            Self { parents: Vec::new(), children: Vec::new(), cache: Cache::Borrowed(cache), p: PhantomData }
        }
        pub fn from_cache(cache: NodeCache<'i, I>) -> Self {
            Self { parents: Vec::new(), children: Vec::new(), cache: Cache::Owned(cache), p: PhantomData }
        }
        pub fn with_interner(i: &'i mut I) -> Self {
            Self::from_cache(NodeCache::with_interner(i))
        }
        pub fn from_interner(i: I) -> Self {
            Self::from_cache(NodeCache::from_interner(i))
        }
        pub fn interner(&self) -> &I {
            match &self.cache {
                Cache::Owned(c) => c.interner(),
                Cache::Borrowed(c) => c.interner(),
            }
        }
        pub fn interner_mut(&mut self) -> &mut I {
            match &mut self.cache {
                Cache::Owned(c) => c.interner_mut(),
                Cache::Borrowed(c) => c.interner_mut(),
            }
        }
        pub fn token(&mut self, kind: S, text: &str) {
            let text = match kind.static_text() {
                Some(t) => {
                    debug_assert_eq!(t, text);
                    t
                }
                None => text,
            };
            self.children.push(Elem::Token(Rc::new(TokenData {
                kind: kind.into_raw().0,
                text: text.to_string(),
            })));
        }
        pub fn static_token(&mut self, kind: S) {
            let t = kind.static_text().unwrap_or_else(|| panic!("Missing static text"));
            self.token(kind, t)
        }
        pub fn start_node(&mut self, kind: S) {
            let at = self.children.len();
            self.parents.push((kind.into_raw().0, at));
        }
        pub fn finish_node(&mut self) {
            let (kind, at) = self.parents.pop().unwrap();
            let ch: Vec<Elem> = self.children.drain(at..).collect();
            let n = ch.iter().map(len).sum();
            self.children.push(Elem::Node(GreenNode(Rc::new(NodeData { kind, len: n, children: ch }))));
        }
        pub fn checkpoint(&self) -> Checkpoint {
            Checkpoint { parent_idx: self.parents.len(), child_idx: self.children.len() }
        }
        fn valid(&self, c: Checkpoint) {
            assert!(c.parent_idx <= self.parents.len(), "checkpoint no longer valid");
            assert!(c.child_idx <= self.children.len(), "checkpoint no longer valid after reverting to an earlier checkpoint");
            if let Some(&(_, first)) = self.parents.last() {
                assert!(c.child_idx >= first, "checkpoint no longer valid");
            }
        }
        pub fn revert_to(&mut self, c: Checkpoint) {
            self.valid(c);
            self.parents.truncate(c.parent_idx);
            self.children.truncate(c.child_idx);
        }
        pub fn start_node_at(&mut self, c: Checkpoint, kind: S) {
            assert!(c.parent_idx >= self.parents.len(), "checkpoint contains one or more unfinished nodes");
            self.valid(c);
            self.parents.push((kind.into_raw().0, c.child_idx));
        }
        pub fn finish(mut self) -> (GreenNode, Option<NodeCache<'i, I>>) {
            assert_eq!(self.children.len(), 1);
            let cache = match self.cache {
                Cache::Owned(c) => Some(c),
                Cache::Borrowed(_) => None,
            };
            match self.children.pop().unwrap() {
                Elem::Node(n) => (n, cache),
                Elem::Token(_) => panic!("called `finish` on a `GreenNodeBuilder` which only contained a token"),
            }
        }
    }
}

pub mod util {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum NodeOrToken<N, T> {
        Node(N),
        Token(T),
    }
}

pub mod text {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct TextSize(pub u32);
    impl From<TextSize> for usize {
        fn from(t: TextSize) -> usize {
            t.0 as usize
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct TextRange(pub u32, pub u32);
    impl TextRange {
        pub fn start(self) -> TextSize {
            TextSize(self.0)
        }
        pub fn end(self) -> TextSize {
            TextSize(self.1)
        }
    }
}

pub mod syntax {
    use super::{green::*, interning::Resolver, text::TextRange, util::NodeOrToken, RawSyntaxKind, Syntax};
    use std::{fmt, marker::PhantomData, rc::Rc};

    pub struct SyntaxNode<S: Syntax> {
        p: PhantomData<S>,
    }
    pub struct SyntaxToken<S: Syntax> {
        p: PhantomData<S>,
    }
    /// The whole subtree is materialised when its parent is visited.
    pub struct ResolvedNode<S: Syntax> {
        green: GreenNode,
        start: usize,
        children: Vec<Child<S>>,
        p: PhantomData<S>,
    }
    enum Child<S: Syntax> {
        N(ResolvedNode<S>),
        T(ResolvedToken<S>),
    }
    pub struct ResolvedToken<S: Syntax> {
        green: Rc<TokenData>,
        start: usize,
        p: PhantomData<S>,
    }
    fn build<S: Syntax>(green: GreenNode, start: usize) -> ResolvedNode<S> {
        let mut at = start;
        let mut children = Vec::with_capacity(green.0.children.len());
        for c in &green.0.children {
            match c {
                Elem::Node(n) => {
                    children.push(Child::N(build(n.clone(), at)));
                    at += n.0.len;
                }
                Elem::Token(t) => {
                    children.push(Child::T(ResolvedToken { green: t.clone(), start: at, p: PhantomData }));
                    at += t.text.len();
                }
            }
        }
        ResolvedNode { green, start, children, p: PhantomData }
    }
    impl<S: Syntax> SyntaxNode<S> {
        pub fn new_root_with_resolver(green: GreenNode, _r: impl Resolver) -> ResolvedNode<S> {
            build(green, 0)
        }
    }
    impl<S: Syntax> ResolvedNode<S> {
        pub fn kind(&self) -> S {
            S::from_raw(RawSyntaxKind(self.green.0.kind))
        }
        pub fn text_range(&self) -> TextRange {
            TextRange(self.start as u32, (self.start + self.green.0.len) as u32)
        }
        pub fn children_with_tokens(&self) -> impl Iterator<Item = NodeOrToken<&ResolvedNode<S>, &ResolvedToken<S>>> + '_ {
            self.children.iter().map(|c| match c {
                Child::N(n) => NodeOrToken::Node(n),
                Child::T(t) => NodeOrToken::Token(t),
            })
        }
    }
    impl<S: Syntax> ResolvedToken<S> {
        pub fn kind(&self) -> S {
            S::from_raw(RawSyntaxKind(self.green.kind))
        }
        pub fn text_range(&self) -> TextRange {
            TextRange(self.start as u32, (self.start + self.green.text.len()) as u32)
        }
        pub fn text(&self) -> &str {
            &self.green.text
        }
    }
    impl<S: Syntax> fmt::Debug for ResolvedNode<S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if f.alternate() {
                return self.write(0, f);
            }
            write!(f, "{:?}@{}..{}", self.kind(), self.start, self.start + self.green.0.len)
        }
    }
    impl<S: Syntax> ResolvedNode<S> {
        fn write(&self, depth: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            indent(depth, f)?;
            write!(f, "{:?}@{}..{}\n", self.kind(), self.start, self.start + self.green.0.len)?;
            for c in &self.children {
                match c {
                    Child::N(n) => n.write(depth + 1, f)?,
                    Child::T(t) => {
                        indent(depth + 1, f)?;
                        write!(f, "{:?}\n", t)?;
                    }
                }
            }
            Ok(())
        }
    }
    fn indent(depth: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for _ in 0..depth {
            f.write_str("  ")?;
        }
        Ok(())
    }
    /// The text stands as it is (cstree escapes it and shortens long ones).
    impl<S: Syntax> fmt::Debug for ResolvedToken<S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{:?}@{}..{} \"", self.kind(), self.start, self.start + self.green.text.len())?;
            f.write_str(&self.green.text)?;
            f.write_str("\"")
        }
    }
    impl<S: Syntax> PartialEq for ResolvedNode<S> {
        fn eq(&self, o: &Self) -> bool {
            Rc::ptr_eq(&self.green.0, &o.green.0)
        }
    }
}

pub mod prelude {
    pub use crate::{build::GreenNodeBuilder, green::GreenNode, syntax::SyntaxNode, RawSyntaxKind, Syntax};
}
