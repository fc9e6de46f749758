prop='C14'
needs='a policy with three or more labels'
breaks='a new random number is drawn for every label, so all labels but the first get a smaller share than their weight and the last one the rest'
edits=[('policy.go', '\tdice := rand.Float64()\n', ''), ('policy.go', '\t\tif dice < cw[i] {', '\t\tif i == len(policy)-1 || rand.Float64() < policy[i].Weight {')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	p := Policy{{"a", 0.3}, {"b", 0.3}, {"c", 0.4}}
	n := map[string]int{}
	for i := 0; i < 20000; i++ {
		n[p.resolveLabel()]++
	}
	if n["c"] < 7500 || n["c"] > 8500 {
		t.Fatalf("split %v", n)
	}
}
'''
