    impl<'a, O, A: P<'a, O>, B: P<'a, O>> Alts<'a, O> for (A, B) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && self.1.rel(i, r))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>> Alts<'a, O> for (A, B, C) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && self.2.rel(i, r))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>> Alts<'a, O> for (A, B, C, D) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && self.3.rel(i, r))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>> Alts<'a, O> for (A, B, C, D, E) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && self.4.rel(i, r))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && self.5.rel(i, r))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && self.6.rel(i, r))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>, H: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G, H) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && ((self.6.rel(i, r) && !soft(r)) || (soft_fail(self.6, i) && self.7.rel(i, r))))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) && self.7.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) && shrinks(self.7) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>, H: P<'a, O>, I: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G, H, I) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && ((self.6.rel(i, r) && !soft(r)) || (soft_fail(self.6, i) && ((self.7.rel(i, r) && !soft(r)) || (soft_fail(self.7, i) && self.8.rel(i, r))))))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) && self.7.ok(n) && self.8.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) && shrinks(self.7) && shrinks(self.8) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>, H: P<'a, O>, I: P<'a, O>, J: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G, H, I, J) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && ((self.6.rel(i, r) && !soft(r)) || (soft_fail(self.6, i) && ((self.7.rel(i, r) && !soft(r)) || (soft_fail(self.7, i) && ((self.8.rel(i, r) && !soft(r)) || (soft_fail(self.8, i) && self.9.rel(i, r))))))))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) && self.7.ok(n) && self.8.ok(n) && self.9.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) && shrinks(self.7) && shrinks(self.8) && shrinks(self.9) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>, H: P<'a, O>, I: P<'a, O>, J: P<'a, O>, K: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G, H, I, J, K) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && ((self.6.rel(i, r) && !soft(r)) || (soft_fail(self.6, i) && ((self.7.rel(i, r) && !soft(r)) || (soft_fail(self.7, i) && ((self.8.rel(i, r) && !soft(r)) || (soft_fail(self.8, i) && ((self.9.rel(i, r) && !soft(r)) || (soft_fail(self.9, i) && self.10.rel(i, r))))))))))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) && self.7.ok(n) && self.8.ok(n) && self.9.ok(n) && self.10.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) && shrinks(self.7) && shrinks(self.8) && shrinks(self.9) && shrinks(self.10) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>, H: P<'a, O>, I: P<'a, O>, J: P<'a, O>, K: P<'a, O>, L: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G, H, I, J, K, L) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && ((self.6.rel(i, r) && !soft(r)) || (soft_fail(self.6, i) && ((self.7.rel(i, r) && !soft(r)) || (soft_fail(self.7, i) && ((self.8.rel(i, r) && !soft(r)) || (soft_fail(self.8, i) && ((self.9.rel(i, r) && !soft(r)) || (soft_fail(self.9, i) && ((self.10.rel(i, r) && !soft(r)) || (soft_fail(self.10, i) && self.11.rel(i, r))))))))))))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) && self.7.ok(n) && self.8.ok(n) && self.9.ok(n) && self.10.ok(n) && self.11.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) && shrinks(self.7) && shrinks(self.8) && shrinks(self.9) && shrinks(self.10) && shrinks(self.11) }
    }
    impl<'a, O, A: P<'a, O>, B: P<'a, O>, C: P<'a, O>, D: P<'a, O>, E: P<'a, O>, F: P<'a, O>, G: P<'a, O>, H: P<'a, O>, I: P<'a, O>, J: P<'a, O>, K: P<'a, O>, L: P<'a, O>, M: P<'a, O>> Alts<'a, O> for (A, B, C, D, E, F, G, H, I, J, K, L, M) {
        open spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { ((self.0.rel(i, r) && !soft(r)) || (soft_fail(self.0, i) && ((self.1.rel(i, r) && !soft(r)) || (soft_fail(self.1, i) && ((self.2.rel(i, r) && !soft(r)) || (soft_fail(self.2, i) && ((self.3.rel(i, r) && !soft(r)) || (soft_fail(self.3, i) && ((self.4.rel(i, r) && !soft(r)) || (soft_fail(self.4, i) && ((self.5.rel(i, r) && !soft(r)) || (soft_fail(self.5, i) && ((self.6.rel(i, r) && !soft(r)) || (soft_fail(self.6, i) && ((self.7.rel(i, r) && !soft(r)) || (soft_fail(self.7, i) && ((self.8.rel(i, r) && !soft(r)) || (soft_fail(self.8, i) && ((self.9.rel(i, r) && !soft(r)) || (soft_fail(self.9, i) && ((self.10.rel(i, r) && !soft(r)) || (soft_fail(self.10, i) && ((self.11.rel(i, r) && !soft(r)) || (soft_fail(self.11, i) && self.12.rel(i, r))))))))))))))))))))))))) }
        open spec fn alts_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) && self.6.ok(n) && self.7.ok(n) && self.8.ok(n) && self.9.ok(n) && self.10.ok(n) && self.11.ok(n) && self.12.ok(n) }
        open spec fn alts_shrink(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) && shrinks(self.6) && shrinks(self.7) && shrinks(self.8) && shrinks(self.9) && shrinks(self.10) && shrinks(self.11) && shrinks(self.12) }
    }
