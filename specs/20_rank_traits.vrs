//@ trait rank::traits::RankSupport
    spec fn wf_rank(&self) -> bool;
    spec fn rank_limit(&self) -> nat;
    /// occurrences of v among the first n entries
    spec fn occ(&self, v: Self::Over, n: int) -> nat;
    proof fn law_occ(&self, v: Self::Over)
        requires self.wf_rank()
        ensures self.occ(v, 0) == 0, self.rank_limit() <= u64::MAX,
            forall|i: int| 0 <= i < self.rank_limit() ==> #[trigger] self.occ(v, i) <= self.occ(v, i + 1) <= self.occ(v, i) + 1;

//@ fn rank::traits::RankSupport::rank
requires self.wf_rank(), panics_allowed() || position < self.rank_limit()
ensures position < self.rank_limit(), r == self.occ(value, position + 1)
//@ fn rank::traits::RankSupport::limit
requires self.wf_rank()
ensures r == self.rank_limit()

//@ trait rank::traits::BitRankSupport
    proof fn law_bitocc(&self, n: int)
        requires self.wf_rank(), 0 <= n <= self.rank_limit()
        ensures self.occ(false, n) + self.occ(true, n) == n;

//@ fn rank::traits::BitRankSupport::rank1
requires self.wf_rank(), panics_allowed() || position < self.rank_limit()
ensures position < self.rank_limit(), r == self.occ(true, position + 1)
//@ fn rank::traits::BitRankSupport::rank0
requires self.wf_rank(), panics_allowed() || position < self.rank_limit()
ensures position < self.rank_limit(), r == self.occ(false, position + 1)
