use crate::error::Result;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum VisitRecursion {
    Continue,
    Skip,
    Stop,
}
pub trait TreeNodeVisitor: Sized {
    type N: TreeNode;
    fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion>;
    fn post_visit(&mut self, _node: &Self::N) -> Result<VisitRecursion> {
        Ok(VisitRecursion::Continue)
    }
}
#[derive(Debug, PartialEq, Eq)]
pub enum RewriteRecursion {
    Continue,
    Mutate,
    Stop,
    Skip,
}
pub trait TreeNodeRewriter: Sized {
    type N: TreeNode;
    fn pre_visit(&mut self, _node: &Self::N) -> Result<RewriteRecursion> {
        Ok(RewriteRecursion::Continue)
    }
    fn mutate(&mut self, node: Self::N) -> Result<Self::N>;
}
pub trait TreeNode: Sized {
    fn apply_children<F: FnMut(&Self) -> Result<VisitRecursion>>(&self, op: &mut F) -> Result<VisitRecursion>;
    fn map_children<F: FnMut(Self) -> Result<Self>>(self, op: F) -> Result<Self>;

    fn apply<F: FnMut(&Self) -> Result<VisitRecursion>>(&self, op: &mut F) -> Result<VisitRecursion> {
        match op(self)? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        }
        self.apply_children(&mut |n| apply_dyn(n, op))
    }
    fn visit<V: TreeNodeVisitor<N = Self>>(&self, v: &mut V) -> Result<VisitRecursion> {
        match v.pre_visit(self)? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        }
        match self.apply_children(&mut |n| n.visit(v))? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        }
        v.post_visit(self)
    }
    fn rewrite<R: TreeNodeRewriter<N = Self>>(self, r: &mut R) -> Result<Self> {
        let need_mutate = match r.pre_visit(&self)? {
            RewriteRecursion::Mutate => return r.mutate(self),
            RewriteRecursion::Stop => return Ok(self),
            RewriteRecursion::Continue => true,
            RewriteRecursion::Skip => false,
        };
        let after = self.map_children(|n| n.rewrite(r))?;
        if need_mutate {
            r.mutate(after)
        } else {
            Ok(after)
        }
    }
}
fn apply_dyn<N: TreeNode>(n: &N, op: &mut dyn FnMut(&N) -> Result<VisitRecursion>) -> Result<VisitRecursion> {
    match op(n)? {
        VisitRecursion::Continue => {}
        VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
        VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
    }
    n.apply_children(&mut |c| apply_dyn(c, op))
}
