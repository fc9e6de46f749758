prop="C14"
needs="a policy with three or more labels"
breaks="cumulative weights are kept up incrementally but skip the second label's share, so the traffic split is off"
edits=[("policy.go","""		var sum float64 = 0
		for i := range policy[0:i] {
			sum += policy[i].Weight
		}
		cw = append(cw, sum)""","""		sum := policy[i-1].Weight
		if i > 1 {
			sum += policy[i-2].Weight
		}
		cw = append(cw, sum)""")]
demo='''
func TestDemo(t *testing.T) {
	p := Policy{{"a", 0.2}, {"b", 0.3}, {"c", 0.5}}
	n := map[string]int{}
	for i := 0; i < 20000; i++ {
		n[p.resolveLabel()]++
	}
	if n["c"] < 9000 || n["c"] > 11000 {
		t.Fatalf("split %v", n)
	}
}
'''
imports="testing"
