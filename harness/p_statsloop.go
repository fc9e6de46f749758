package j8a

import (
	"os"
	"time"

	"github.com/shirou/gopsutil/process"
)

func init() {
	vfHarness["StatsLoop"] = func() { vfVirtual(vfH_StatsLoop) }
}

// what the executor knows of the process; natively it is the real one.
func vfM_Process_Percent(p *process.Process, d time.Duration) (float64, error) {
	time.Sleep(d)
	return 1, nil
}

func vfM_Process_MemoryPercent(p *process.Process) (float32, error) { return 1, nil }

func vfM_Process_MemoryInfo(p *process.Process) (*process.MemoryInfoStat, error) {
	return &process.MemoryInfoStat{RSS: 1000}, nil
}

// the gateway takes a sample of itself every hour.
func vfH_StatsLoop() {
	pid := os.Getpid()
	procHistory = nil
	run := []int{1, 2, 3, 23, 24, 25, 40}[vfChoice("hours", 7)]
	start := time.Now()
	vfLogCapture()
	logProcStats(&process.Process{Pid: int32(pid)})
	time.Sleep(time.Duration(run)*time.Hour - 30*time.Minute)
	// "the window is full from the start"
	h := procHistory
	vfAssert("window", len(h) == historyMaxSamples)
	if len(h) != historyMaxSamples {
		return
	}
	vfCover("sampled")
	near := func(d, want time.Duration) bool { return d > want-5*time.Minute && d < want+5*time.Minute }
	for i := range h {
		vfAssert("of-this-process", h[i].pid == int32(pid) && h[i].rssBytes > 0)
		// the last one was taken half an hour ago
		back := len(h) - 1 - i
		want := time.Duration(run-1-back) * time.Hour
		if want < 0 {
			want = 0
		}
		vfAssert("one-every-hour", near(h[i].time.Sub(start), want))
	}
}
