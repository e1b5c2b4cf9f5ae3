// Bounded check of how protoc is located, fetched and unpacked. Nothing is
// fetched from outside: the default transport of net/http is replaced by one
// that records the requests and answers them from memory. Names of hostile
// archives climb at most to the scratch directory of the check.
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

type entry struct {
	name, data string
	mode       os.FileMode
}

func archive(es []entry) []byte {
	b := &bytes.Buffer{}
	w := zip.NewWriter(b)
	for _, e := range es {
		fh := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		fh.SetMode(e.mode)
		f, err := w.CreateHeader(fh)
		if err != nil {
			panic(err)
		}
		if !strings.HasSuffix(e.name, "/") {
			if _, err := f.Write([]byte(e.data)); err != nil {
				panic(err)
			}
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func protocOf(version string) entry {
	return entry{"bin/protoc", "#!/bin/sh\necho libprotoc " + version + "\n", 0o755}
}

// web answers every request from memory.
type web struct {
	urls   []string
	status int
	body   []byte
}

func (w *web) RoundTrip(r *http.Request) (*http.Response, error) {
	w.urls = append(w.urls, r.URL.String())
	return &http.Response{StatusCode: w.status, Status: fmt.Sprintf("%d %s", w.status, http.StatusText(w.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: ioutil.NopCloser(bytes.NewReader(w.body)), ContentLength: int64(len(w.body)), Request: r}, nil
}

func opts(cache, bin, wkt, url string) []protoc.DownloaderOption {
	return []protoc.DownloaderOption{protoc.DownloaderWithCachePath(cache), protoc.DownloaderWithProtocBinPath(bin), protoc.DownloaderWithProtocWKTPath(wkt), protoc.DownloaderWithProtocURL(url)}
}

func config(version string) settings.Config {
	return settings.Config{Compile: settings.CompileConfig{ProtobufVersion: version}}
}

func main() {
	h := hz.New("C22")
	base := rz.Temp()
	defer rz.Clean(base)
	net := &web{status: 200}
	http.DefaultTransport = net
	for _, k := range []string{"HOME", "XDG_CACHE_HOME"} {
		_ = os.Setenv(k, filepath.Join(base, "home"))
	}
	r := rand.New(rand.NewSource(h.Seed))

	combos(h, net, filepath.Join(base, "combos"))
	requests(h, net, filepath.Join(base, "requests"))
	places(h, net, filepath.Join(base, "places"))
	archives(h, r, net, filepath.Join(base, "archives"))
	h.Done()
}

// combos: which combinations of locations are refused, and that a given
// protoc is used without touching the cache or the network.
func combos(h *hz.H, net *web, dir string) {
	rz.Write(dir, map[string]string{
		"protoc":                          "#!/bin/sh\necho libprotoc 3.11.0\n",
		"good/google/protobuf/any.proto":  "",
		"nogoogle/x":                      "",
		"noproto/google/x":                "",
		"file":                            "",
		"gfile/google":                    "",
		"pfile/google/protobuf":           "",
		"good2/google/protobuf/api.proto": "",
	})
	bins := []string{"", "protoc", "missing", "x/../protoc", "good", "file/protoc"}
	wkts := []string{"", "good", "nogoogle", "noproto", "missing", "file", "gfile", "pfile", "good/", "x/../good2", "file/x"}
	urls := []string{"", "http://example.com/p.zip", "file:///x.zip"}
	join := func(p string) string {
		if p == "" {
			return ""
		}
		return dir + "/" + p
	}
	exists := func(p string) bool { _, err := os.Stat(filepath.Clean(p)); return !os.IsNotExist(err) }
	n := 0
	for _, b := range bins {
		for _, w := range wkts {
			for _, u := range urls {
				n++
				bin, wkt := join(b), join(w)
				cache := filepath.Join(dir, "cache")
				ok := true
				if bin != "" || wkt != "" {
					info, err := os.Stat(filepath.Join(filepath.Clean(wkt), "google", "protobuf"))
					ok = u == "" && bin != "" && wkt != "" && exists(bin) && exists(wkt) && err == nil && info.IsDir()
				}
				key := fmt.Sprintf("bin=%s wkt=%s url=%s", b, w, u)
				h.Try("combos", key, func() {
					net.urls = nil
					before := rz.Snapshot(dir)
					d, err := protoc.NewDownloader(config("3.11.0"), opts(cache, bin, wkt, u)...)
					h.Check("locations refused", key, true, fmt.Sprint("accepted ", ok), fmt.Sprint("accepted ", err == nil))
					if err != nil || bin == "" {
						return
					}
					p, err1 := d.ProtocPath()
					i, err2 := d.WellKnownTypesIncludePath()
					_, err3 := d.Download()
					h.Check("given protoc is used as it is", key, true, fmt.Sprint(filepath.Clean(bin), " ", filepath.Clean(wkt), " <nil> <nil> <nil>"), fmt.Sprint(p, " ", i, " ", err1, " ", err2, " ", err3))
					h.Check("given protoc: no download", key, true, "[] []", fmt.Sprint(net.urls, rz.Diff(before, rz.Snapshot(dir))))
				})
			}
		}
	}
	h.Bound("all %d combinations of %d protoc paths, %d include paths and %d locations", n, len(bins), len(wkts), len(urls))
}

var rc = regexp.MustCompile(`^(.*rc)-([0-9]+)$`)

// requests: what is asked for, for which version, and how often.
func requests(h *hz.H, net *web, dir string) {
	osName := map[string]string{"linux": "linux", "darwin": "osx"}[runtime.GOOS]
	versions := []string{"3.11.0", "3.8.0", "3.0.0-beta-2", "3.8.0-rc-1", "3.12.0-rc-10", "3.8.0-rc1", "3.9.0-rc-1-x", ""}
	statuses := []int{200, 404, 500, 204, 301}
	bodies := []string{"good", "notzip", "noprotoc", "otherversion", "longerversion", "shorterversion", "truncated", "empty"}
	urls := []string{"", "http://example.com/a/p.zip", "https://example.com/p.zip?x=1", "ftp://example.com/p.zip", "example.com/p.zip"}
	n := 0
	for vi, v := range versions {
		for si, status := range statuses {
			for bi, body := range bodies {
				for ui, u := range urls {
					if status != 200 && (bi > 1 || vi > 1) || ui > 2 && (bi > 0 || vi > 2) {
						continue
					}
					n++
					key := fmt.Sprintf("version=%q status=%d body=%s url=%s", v, status, body, u)
					h.Try("requests", key, func() {
						cache := filepath.Join(dir, fmt.Sprintf("%d-%d-%d-%d", vi, si, bi, ui), "cache")
						eff := v
						if eff == "" {
							eff = "3.11.0"
						}
						es := []entry{protocOf(eff), {"include/google/protobuf/any.proto", "x", 0o644}}
						switch body {
						case "noprotoc":
							es = es[1:]
						case "otherversion":
							es[0] = protocOf("1.2.3")
						case "longerversion":
							es[0] = protocOf(eff + ".4")
						case "shorterversion":
							es[0] = protocOf(eff[:len(eff)-1])
						}
						net.status, net.body, net.urls = status, archive(es), nil
						switch body {
						case "notzip":
							net.body = []byte("this is not an archive")
						case "truncated":
							net.body = net.body[:len(net.body)/2]
						case "empty":
							net.body = nil
						}
						want := u
						if u == "" {
							tag := eff
							if m := rc.FindStringSubmatch(tag); m != nil {
								tag = m[1] + m[2]
							}
							want = fmt.Sprintf("https://github.com/protocolbuffers/protobuf/releases/download/v%s/protoc-%s-%s-x86_64.zip", tag, eff, osName)
						}
						web := strings.HasPrefix(want, "http")
						ok := web && status == 200 && (body == "good" || strings.HasSuffix(body, "version") && u != "")
						d, err := protoc.NewDownloader(config(v), opts(cache, "", "", u)...)
						if err != nil {
							h.Fail(key, "downloader refused", key, nil, err.Error())
							return
						}
						p, err := d.ProtocPath()
						h.Check("download succeeds exactly for a usable archive", key, true, fmt.Sprint(ok), fmt.Sprint(err == nil))
						wantURLs := []string{want}
						if !web {
							wantURLs = nil
						}
						h.Check("requested release", key, true, fmt.Sprint(wantURLs), fmt.Sprint(net.urls))
						if err != nil {
							return
						}
						i, err := d.WellKnownTypesIncludePath()
						root, err2 := d.Download()
						h.Check("paths of the download", key, true, fmt.Sprint(filepath.Join(root, "bin", "protoc"), " ", filepath.Join(root, "include"), " <nil> <nil>"), fmt.Sprint(p, " ", i, " ", err, " ", err2))
						h.Check("below the cache", key, true, "true", fmt.Sprint(strings.HasPrefix(root, cache+"/")))
						if u == "" {
							h.Check("directory of the version", key, true, eff, filepath.Base(root))
						}
						got := rz.Snapshot(root)
						h.Check("unpacked", key, true, "bin/protoc include/google/protobuf/any.proto", names(got))
						// neither the same nor another user of the cache fetches again
						d2, err := protoc.NewDownloader(config(v), opts(cache, "", "", u)...)
						if err != nil {
							h.Fail(key, "downloader refused", key, nil, err.Error())
							return
						}
						p2, err := d2.ProtocPath()
						h.Check("fetched once", key, true, fmt.Sprint(p, " <nil> ", wantURLs), fmt.Sprint(p2, " ", err, " ", net.urls))
					})
				}
			}
		}
	}
	// two versions or locations never share a directory
	seen := map[string]string{}
	for _, v := range versions[:7] {
		for _, u := range []string{"", "http://a/p.zip", "http://a/p.zip?v=2", "http://b/p.zip"} {
			n++
			net.status, net.body, net.urls = 200, archive([]entry{protocOf(v)}), nil
			d, err := protoc.NewDownloader(config(v), opts(filepath.Join(dir, "shared"), "", "", u)...)
			if err != nil {
				panic(err)
			}
			key := fmt.Sprintf("version=%q url=%s", v, u)
			id := v
			if u != "" {
				id = u
			}
			root, err := d.Download()
			h.Check("shared cache", key, true, "<nil>", fmt.Sprint(err))
			if other, ok := seen[root]; ok && other != id {
				h.Fail(key, "directory shared with another release", key, "a directory of its own", other)
			}
			seen[root] = id
		}
	}
	h.Bound("%d downloads: %d versions, %d http statuses, %d kinds of archive, %d locations", n, len(versions), len(statuses), len(bodies), len(urls))
}

func names(snap map[string]string) string {
	var ns []string
	for k := range snap {
		if k = strings.Trim(k, "/"); k != "" && k != "." {
			ns = append(ns, k)
		}
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}

// places: the default location of the cache.
func places(h *hz.H, net *web, dir string) {
	osName := map[string]string{"linux": "Linux", "darwin": "Darwin"}[runtime.GOOS]
	defCache := map[string]string{"linux": ".cache", "darwin": "Library/Caches"}[runtime.GOOS]
	n := 0
	for _, xdg := range []string{"", "xdg"} {
		for _, home := range []string{"", "home"} {
			n++
			key := fmt.Sprintf("XDG_CACHE_HOME=%s HOME=%s", xdg, home)
			h.Try("places", key, func() {
				for k, v := range map[string]string{"XDG_CACHE_HOME": xdg, "HOME": home} {
					if v != "" {
						v = filepath.Join(dir, fmt.Sprint(n), v)
					}
					_ = os.Setenv(k, v)
				}
				net.status, net.body, net.urls = 200, archive([]entry{protocOf("3.11.0")}), nil
				d, err := protoc.NewDownloader(config("3.11.0"))
				if err != nil {
					panic(err)
				}
				want := "error"
				switch {
				case xdg != "":
					want = filepath.Join(dir, fmt.Sprint(n), "xdg", "prototool", osName, "x86_64", "protobuf", "3.11.0")
				case home != "":
					want = filepath.Join(dir, fmt.Sprint(n), "home", defCache, "prototool", osName, "x86_64", "protobuf", "3.11.0")
				}
				got, err := d.Download()
				if err != nil {
					got = "error"
				}
				h.Check("default cache", key, true, want, got)
				if err == nil {
					before := rz.Snapshot(filepath.Join(dir, fmt.Sprint(n)))
					h.Check("delete", key, true, "<nil>", fmt.Sprint(d.Delete()))
					for _, c := range rz.Diff(before, rz.Snapshot(filepath.Join(dir, fmt.Sprint(n)))) {
						if !strings.Contains(c, "prototool") {
							h.Fail(key, "deleted outside of the cache", key, nil, c)
						}
					}
				}
			})
		}
	}
	_ = os.Setenv("HOME", filepath.Join(dir, "home"))
	h.Bound("%d settings of HOME and XDG_CACHE_HOME", n)
}

// archives: nothing is written outside of the directory of the version.
func archives(h *hz.H, r *rand.Rand, net *web, dir string) {
	// root is four levels below the scratch directory of one run, names climb
	// at most that far
	deep := "a/b/c/d"
	segs := []string{"..", ".", "x", "..x", "x..", "...", "bin", "sub dir", "a\\b", ""}
	good := func(name string) bool {
		p := filepath.Join("/r", "v", name)
		return strings.HasPrefix(p, "/r/v/")
	}
	run := func(i int, key string, es []entry, u string) {
		h.Try("archives", key, func() {
			top := filepath.Join(dir, fmt.Sprint(i))
			cache := filepath.Join(top, deep, "cache")
			rz.Write(cache, map[string]string{"keep": "kept", "protobuf/other/bin/protoc": "other version", "protobuf/3.11.0x/f": "sibling"})
			data := archive(es)
			if strings.HasPrefix(u, "file://") {
				u = "file://" + filepath.Join(top, "p.zip")
				if err := ioutil.WriteFile(filepath.Join(top, "p.zip"), data, 0o644); err != nil {
					panic(err)
				}
			}
			net.status, net.body, net.urls = 200, data, nil
			before := rz.Snapshot(top)
			d, err := protoc.NewDownloader(config("3.11.0"), opts(cache, "", "", u)...)
			if err != nil {
				panic(err)
			}
			root, err := d.Download()
			inside := true
			want := map[string]string{}
			for _, e := range es {
				if strings.HasSuffix(e.name, "/") || e.mode.IsDir() {
					continue
				}
				if !good(e.name) {
					inside = false
				}
				want[filepath.Join("/", e.name)] = e.data
			}
			// all that is new is below one directory of the cache
			dirs := map[string]bool{}
			for _, c := range rz.Diff(before, rz.Snapshot(top)) {
				f := c
				if k := strings.Index(f, deep); k >= 0 {
					f = f[k:]
				}
				pre := deep + "/cache/protobuf/"
				rel := strings.TrimPrefix(f, pre)
				if rel == f && strings.HasPrefix(pre, strings.TrimRight(f, "/: ")) {
					continue
				}
				if rel == f {
					h.Fail(key, "file written outside of the cache", key, "only "+pre, c)
					continue
				}
				first := strings.FieldsFunc(rel, func(c rune) bool { return c == '/' || c == ' ' || c == ':' || c == '=' })[0]
				dirs[strings.TrimSuffix(first, ".lock")] = true
				if u == "" && strings.TrimSuffix(first, ".lock") != "3.11.0" {
					h.Fail(key, "file written outside of the directory of the version", key, "3.11.0", c)
				}
			}
			if len(dirs) > 1 {
				h.Fail(key, "files written to more than one directory", key, 1, rz.SortedKeys(dirs))
			}
			if inside {
				h.Check("archive within its directory is unpacked", key, true, "<nil>", fmt.Sprint(err))
			}
			if err != nil {
				h.Eval("refused", key, true)
				return
			}
			for p, data := range want {
				b, err := ioutil.ReadFile(filepath.Join(root, p))
				if !good(p) || !inside {
					continue
				}
				h.Check("content", key+" "+p, true, data+" <nil>", fmt.Sprint(string(b), " ", err))
			}
		})
	}
	n := 0
	var all []string
	for _, a := range segs {
		all = append(all, a)
		for _, b := range segs {
			all = append(all, a+"/"+b)
			for _, c := range segs {
				all = append(all, a+"/"+b+"/"+c)
			}
		}
	}
	for _, m := range all {
		all = append(all, strings.TrimSuffix(m, "/")+"/f", "bin/../../../"+m)
	}
	uniq := map[string]bool{}
	var ns []string
	for _, m := range all {
		if m != "" && !uniq[m] && strings.Count(m, "..") < 6 {
			uniq[m] = true
			ns = append(ns, m)
		}
	}
	// zip readers drop a name that is a directory; a file there cannot be made
	usable := func(m string) bool {
		if strings.HasSuffix(m, "/") {
			return true
		}
		p := filepath.Join("/r", "v", m)
		return p != "/r/v" && p != "/r/v/bin" && !strings.HasPrefix(p, "/r/v/bin/protoc")
	}
	r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	lim := h.N(700, len(ns))
	for i, m := range ns {
		if i >= lim || h.Late() {
			break
		}
		if !usable(m) {
			continue
		}
		mode := os.FileMode(0o644)
		switch r.Intn(6) {
		case 0:
			mode = 0o600
		case 1:
			mode = 0o644 | os.ModeSymlink
		}
		es := []entry{protocOf("3.11.0"), {m, "data of " + m, mode}, {"include/z.proto", "z", 0o644}}
		if r.Intn(2) == 0 {
			es[0], es[1] = es[1], es[0]
		}
		if mode&os.ModeSymlink != 0 {
			// a later entry that goes through the link, were it one
			es[len(es)-1].name = "include/z.proto"
			for k := range es {
				if es[k].name == m {
					es[k] = entry{"link", "../../..", mode}
				}
			}
		}
		n++
		u := []string{"", "", "http://example.com/p.zip", "file://"}[r.Intn(4)]
		run(n, fmt.Sprintf("name=%q mode=%v url=%s", m, mode, u), es, u)
	}
	// an absolute name
	for k := 0; k < 3; k++ {
		n++
		abs := filepath.Join(dir, "abs", fmt.Sprint(k), "f")
		run(n, fmt.Sprintf("absolute name %d", k), []entry{protocOf("3.11.0"), {abs, "absolute", 0o644}}, "")
		if _, err := os.Stat(abs); err == nil {
			h.Fail("absolute name", "absolute name of an entry written as it is", "absolute", "below the cache", abs)
		}
	}
	h.Bound("%d archives of %d names of up to 4 path elements over %d kinds of element", n, len(ns), len(segs))
}
