package run

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// Probe builds the program that is linked with the packages of the tool to record what they contain.
func (w *Work) Probe() (string, error) {
	w.probeOnce.Do(func() {
		bin := filepath.Join(w.Dir, "bin", "probe")
		overlay := filepath.Join(w.Dir, "overlay.json")
		data, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{
			filepath.Join(Repo, "cmd/verifprobe/main.go"): filepath.Join(w.Harness, "probe", "main.go.txt"),
			filepath.Join(Repo, "cmd/verifprobe/api.go"):  filepath.Join(w.Harness, "probe", "api.go.txt"),
		}})
		if err := os.WriteFile(overlay, data, 0644); err != nil {
			w.probeErr = infra("%v", err)
			return
		}
		res := w.Exec(Repo, 10*time.Minute, nil, "go", append(cover([]string{"build", "-overlay", overlay, "-o", bin}, "./pkg/..."), "./cmd/verifprobe")...)
		if res.Code != 0 {
			w.probeErr = infra("can't build the probe: %s", res.Out)
			return
		}
		w.probe = bin
	})
	return w.probe, w.probeErr
}

// RunProbe runs the probe and decodes its result.
func (w *Work) RunProbe(dir string, result interface{}, mode string, args ...string) (Res, error) {
	bin, err := w.Probe()
	if err != nil {
		return Res{}, err
	}
	out := filepath.Join(dir, "probe-"+mode+".json")
	_ = os.Remove(out)
	res := w.Exec(dir, Limit, nil, bin, append([]string{mode, out}, args...)...)
	if res.Timeout {
		return res, fmt.Errorf("reading doesn't finish in %s", Limit)
	}
	if res.Code != 0 {
		return res, fmt.Errorf("reading fails with code %d: %s", res.Code, Tail(res.Out, 20))
	}
	data, err := os.ReadFile(out)
	if err != nil {
		return res, infra("%v", err)
	}
	if err := json.Unmarshal(data, result); err != nil {
		return res, infra("%v", err)
	}
	return res, nil
}
