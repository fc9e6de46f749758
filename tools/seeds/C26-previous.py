prop='C26'
needs='memory that doubles over several samples but not from one to the next'
breaks='growth is measured against the smallest sample instead of the oldest'
edits=[('stats.go', '\t\tgrowthRates[l].v = float64((*samples)[l].rssBytes) / float64((*samples)[0].rssBytes)', '\t\tbase := (*samples)[0].rssBytes\n\t\tif l > 0 && (*samples)[l-1].rssBytes < base {\n\t\t\tbase = (*samples)[l-1].rssBytes\n\t\t}\n\t\tgrowthRates[l].v = float64((*samples)[l].rssBytes) / float64(base)')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	s := samples{}
	for _, v := range []uint64{100, 40, 90} {
		s.append(sample{pid: 1, rssBytes: v})
	}
	for _, g := range s.log() {
		if g.high {
			t.Fatal("growth flagged")
		}
	}
}
'''
