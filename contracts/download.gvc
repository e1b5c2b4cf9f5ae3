package protoc
props C22

extern os.IsNotExist pure
extern (os.FileInfo).IsDir pure
extern (fs.FileInfo).IsDir pure
extern os.MkdirAll event
extern os.OpenFile event
extern os.RemoveAll event
extern os.Getenv pure
extern (io.Closer).Close fresh
extern (io.ReadCloser).Close fresh
extern ioutil.ReadAll fresh
extern http.Get event
extern zip.NewReader fresh
extern (*zip.FileHeader).Mode fresh
extern (*zip.File).Open fresh
extern (fs.FileMode).IsDir pure
extern zap.Any pure
extern zap.NewNop fresh
extern regexp.MustCompile pure
extern (*regexp.Regexp).ReplaceAllString pure
extern strings.TrimPrefix pure
extern (*sync.RWMutex).RLock nop
extern (*sync.RWMutex).RUnlock nop
extern (*sync.RWMutex).Lock nop
extern (*sync.RWMutex).Unlock nop
extern sha512.New fresh
extern (hash.Hash).Write nop
extern (hash.Hash).Sum nop
extern (*base64.Encoding).EncodeToString pure

// ---- which release, and where it goes ----
def unameS(goos string) string = ite(goos == "darwin", "Darwin", "Linux")
def supported(goos string, goarch string) bool = (goos == "darwin" || goos == "linux") && goarch == "amd64"
func protoc.getUnameSUnameMPaths
  pure
  nopanic
  ensures iff(err == nil, supported(goos, goarch))
  ensures implies(err == nil, result0 == unameS(goos) && result1 == "x86_64")

func protoc.getProtocSPath
  pure
  nopanic
  ensures iff(err == nil, goos == "darwin" || goos == "linux")
  ensures implies(err == nil, result0 == ite(goos == "darwin", "osx", "linux"))

// release candidates are tagged without the hyphen
def tagged(version string) string = regexp.MustCompile("(rc)-(\\d+$)").ReplaceAllString(version, "$1$2")
func (*protoc.downloader).getProtocURL
  opaque
  event
  requires d != nil
  ensures implies(d.protocURL != "", result0 == d.protocURL && err == nil)
  ensures implies(d.protocURL == "", iff(err == nil, supported(goos, goarch)))
  ensures implies(d.protocURL == "" && err == nil, result0 == fmt.Sprintf("https://github.com/protocolbuffers/protobuf/releases/download/v%s/protoc-%s-%s-%s.zip", tagged(d.config.Compile.ProtobufVersion), d.config.Compile.ProtobufVersion, ite(goos == "darwin", "osx", "linux"), "x86_64"))

func (*protoc.downloader).getBasePathVersionPart
  opaque
  ensures implies(d.protocURL == "", result == d.config.Compile.ProtobufVersion)

func protoc.getDefaultBasePathInternalNoOSARCH
  requires supported(goos, goarch)
  ensures implies(err == nil && ret(getenvFunc, "XDG_CACHE_HOME") != "", result0 == filepath.Join(ret(getenvFunc, "XDG_CACHE_HOME"), "prototool"))
  ensures implies(ret(getenvFunc, "XDG_CACHE_HOME") == "", iff(err == nil, ret(getenvFunc, "HOME") != ""))
  ensures implies(err == nil && ret(getenvFunc, "XDG_CACHE_HOME") == "", result0 == ite(goos == "darwin", filepath.Join(ret(getenvFunc, "HOME"), "Library", "Caches", "prototool"), filepath.Join(ret(getenvFunc, "HOME"), ".cache", "prototool")))

def homed() bool = os.Getenv("XDG_CACHE_HOME") != "" || os.Getenv("HOME") != ""
def cachedir(goos string) string = ite(os.Getenv("XDG_CACHE_HOME") != "", filepath.Join(os.Getenv("XDG_CACHE_HOME"), "prototool"), ite(goos == "darwin", filepath.Join(os.Getenv("HOME"), "Library", "Caches", "prototool"), filepath.Join(os.Getenv("HOME"), ".cache", "prototool")))
func protoc.getDefaultBasePath
  opaque
  ensures implies(err == nil, homed() && (result0 == filepath.Join(cachedir("linux"), "Linux", "x86_64") || result0 == filepath.Join(cachedir("darwin"), "Darwin", "x86_64")))
func protoc.getDefaultBasePathNoOSARCH
  opaque
  ensures implies(err == nil, homed() && (result0 == cachedir("linux") || result0 == cachedir("darwin")))
extern file.CheckAbs pure
func (*protoc.downloader).getBasePathNoVersion
  opaque
  ensures implies(err == nil && d.cachePath != "", result0 == filepath.Join(tup(file.AbsClean(d.cachePath), 0), "protobuf"))
  ensures implies(err == nil && d.cachePath == "", result0 == filepath.Join(tup(protoc.getDefaultBasePath(), 0), "protobuf"))
func (*protoc.downloader).getBasePathNoVersionOSARCH
  opaque
  ensures implies(err == nil && d.cachePath != "", result0 == tup(file.AbsClean(d.cachePath), 0))
  ensures implies(err == nil && d.cachePath == "", result0 == tup(protoc.getDefaultBasePathNoOSARCH(), 0))
func (*protoc.downloader).getBasePath
  opaque
  ensures implies(err == nil, result0 == filepath.Join(tup(d.getBasePathNoVersion(), 0), d.getBasePathVersionPart()))

// ---- options ----
axiom not-exist-is-error: !os.IsNotExist(nil)
axiom clean-not-empty: forall(p, string, filepath.Clean(p) != "")
def isdir(p string) bool = tup(os.Stat(p), 1) == nil && tup(os.Stat(p), 0).IsDir()
func protoc.newDownloader
  callbacks modify
  inits vars
  ensures implies(err == nil, result0 != nil && result0.config.Compile.ProtobufVersion != "")
  ensures implies(err == nil, iff(result0.protocBinPath == "", result0.protocWKTPath == ""))
  ensures implies(err == nil && result0.protocBinPath != "", result0.protocURL == "" && !os.IsNotExist(tup(os.Stat(result0.protocBinPath), 1)) && isdir(filepath.Join(result0.protocWKTPath, "google", "protobuf")))
  ensures implies(err != nil, result0 == nil)

func protoc.DownloaderWithProtocURL$1
  modifies fields(downloader)
  ensures downloader.protocURL == *protocURL && downloader.protocBinPath == old(downloader.protocBinPath) && downloader.protocWKTPath == old(downloader.protocWKTPath) && downloader.cachePath == old(downloader.cachePath)
func protoc.DownloaderWithProtocBinPath$1
  modifies fields(downloader)
  ensures downloader.protocBinPath == *protocBinPath && downloader.protocURL == old(downloader.protocURL) && downloader.protocWKTPath == old(downloader.protocWKTPath) && downloader.cachePath == old(downloader.cachePath)
func protoc.DownloaderWithProtocWKTPath$1
  modifies fields(downloader)
  ensures downloader.protocWKTPath == *protocWKTPath && downloader.protocURL == old(downloader.protocURL) && downloader.protocBinPath == old(downloader.protocBinPath) && downloader.cachePath == old(downloader.cachePath)
func protoc.DownloaderWithCachePath$1
  modifies fields(downloader)
  ensures downloader.cachePath == *cachePath && downloader.protocURL == old(downloader.protocURL) && downloader.protocBinPath == old(downloader.protocBinPath) && downloader.protocWKTPath == old(downloader.protocWKTPath)

// ---- a given protoc is used as it is ----
func (*protoc.downloader).ProtocPath variant given
  requires d != nil && d.protocBinPath != ""
  ensures result0 == d.protocBinPath && err == nil && onlycalls("none")
func (*protoc.downloader).WellKnownTypesIncludePath variant given
  requires d != nil && d.protocWKTPath != ""
  ensures result0 == d.protocWKTPath && err == nil && onlycalls("none")
func (*protoc.downloader).cache variant given
  requires d != nil && d.protocBinPath != ""
  ensures result0 == d.protocBinPath && err == nil && onlycalls("none")

// ---- fetching and unpacking ----
def wanted(d *protoc.downloader, goos string, goarch string) string = tup(d.getProtocURL(goos, goarch), 0)
func (*protoc.downloader).getDownloadData
  requires d != nil
  ensures implies(tup(d.getProtocURL(goos, goarch), 1) != nil, err != nil)
  ensures allcalls("http.Get", u, u == wanted(d, goos, goarch) && (strings.HasPrefix(u, "http://") || strings.HasPrefix(u, "https://")))
  ensures implies(err == nil, strings.HasPrefix(wanted(d, goos, goarch), "file://") || somecall("http.Get", u, u == wanted(d, goos, goarch)))

func (*protoc.downloader).downloadInternal
  requires d != nil
  ensures allcalls("os.OpenFile", p, fl, m, strings.HasPrefix(p, basePath + "/"))
  ensures allcalls("os.MkdirAll", p, m, exists(q, string, strings.HasPrefix(q, basePath + "/") && p == filepath.Dir(q)))

axiom append-keeps-errors: forall(a, error, b, error, iff(multierr.Append(a, b) == nil, a == nil && b == nil))
extern protoc.newFlock fresh
extern protoc.flockLock fresh
extern protoc.flockUnlock fresh
extern exec.Command pure
extern bytes.NewBuffer new
extern (*exec.Cmd).Run pureevent
// a cached or unpacked protoc is used only if it runs and, for a configured version, says that version
func (*protoc.downloader).checkDownloaded
  event
  requires d != nil
  modifies *
  ensures allcalls("(*exec.Cmd).Run", c, c == exec.Command(filepath.Join(basePath, "bin", "protoc"), "--version") && implies(err == nil, c.Run() == nil))
  ensures somecall("(*exec.Cmd).Run", c, implies(err == nil, c.Run() == nil))
  ensures implies(err == nil && d.protocURL == "", somecall("(*bytes.Buffer).String", b, strings.TrimSpace(b.String()) == fmt.Sprintf("libprotoc %s", d.config.Compile.ProtobufVersion)))
extern (*protoc.downloader).download event
func (*protoc.downloader).cache
  requires d != nil && d.protocBinPath == ""
  modifies *
  ensures onlycalls("(*protoc.downloader).checkDownloaded", "(*protoc.downloader).download")
  ensures allcalls("(*protoc.downloader).download", q, p, q == d && p == tup(old(d.getBasePath()), 0))
  ensures allcalls("(*protoc.downloader).checkDownloaded", q, p, q == d && p == tup(old(d.getBasePath()), 0))
  ensures implies(err == nil, result0 == tup(old(d.getBasePath()), 0) && d.cachedBasePath == result0 && somecall("(*protoc.downloader).checkDownloaded", q, p, p == result0))
  ensures d.protocURL == old(d.protocURL) && d.cachePath == old(d.cachePath) && d.protocWKTPath == old(d.protocWKTPath)

func (*protoc.downloader).Delete
  requires d != nil
  modifies fields(d)
  ensures allcalls("os.RemoveAll", p, p == tup(old(d.getBasePathNoVersionOSARCH()), 0))
  ensures implies(tup(old(d.getBasePathNoVersionOSARCH()), 1) != nil, onlycalls("none"))
