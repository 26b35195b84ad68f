package common

import "testing"

func TestGvcC03(t *testing.T) {
	g := gvcStart(t)
	for i := 0; i < 8; i++ {
		i := i
		g.do(gvcS("restriction history ", i), func() (bool, string) {
			var s SubgroupRestriction
			var only SubgroupOnly
			if s.IsSubgroupOnly() || !only.IsSubgroupOnly() {
				return false, "wrong default"
			}
			for j := 0; j < 3; j++ {
				v := i>>j&1 == 1
				s.SetSubgroupRestriction(v)
				if s.IsSubgroupOnly() != v {
					return false, "setting not kept"
				}
				if gvcPanics(func() { only.SetSubgroupRestriction(v) }) == v {
					return false, "fixed restriction: panic or absence of panic is wrong"
				}
				if !only.IsSubgroupOnly() {
					return false, "fixed restriction lost"
				}
			}
			if !TrustedInput.Bool() || UntrustedInput.Bool() {
				return false, "TrustedInput, UntrustedInput"
			}
			if TrustLevelFromBool(i&1 == 1).Bool() != (i&1 == 1) {
				return false, "trust level not kept"
			}
			return true, ""
		})
	}
}
