"""Names of the C++ and C standard libraries and of POSIX, the headers that provide
them, and a use of each.  # is the number of the use, {s} std:: or nothing.
"""

# name, headers, use
CXX = [
    ('vector', 'vector', 'std::vector<int> u#;'),
    ('vector method', 'vector', 'int u#(std::vector<int>& v) {{ return v.at(0); }}'),
    ('string', 'string', 'std::string u#;'),
    ('to_string', 'string', 'auto u# = std::to_string(1);'),
    ('string_view', 'string_view', 'std::string_view u#;'),
    ('map', 'map', 'std::map<int, int> u#;'),
    ('multimap', 'map', 'std::multimap<int,int> u#;'),
    ('set', 'set', 'std::set<int> u#;'),
    ('multiset', 'set', 'std::multiset<int> u#;'),
    ('unordered_map', 'unordered_map', 'std::unordered_map<int, int> u#;'),
    ('unordered_set', 'unordered_set', 'std::unordered_set<int> u#;'),
    ('list', 'list', 'std::list<int> u#;'),
    ('forward_list', 'forward_list', 'std::forward_list<int> u#;'),
    ('deque', 'deque', 'std::deque<int> u#;'),
    ('array', 'array', 'std::array<int, 2> u#;'),
    ('stack', 'stack', 'std::stack<int> u#;'),
    ('queue', 'queue', 'std::queue<int> u#;'),
    ('priority_queue', 'queue', 'std::priority_queue<int> u#;'),
    ('pair', 'utility', 'std::pair<int, int> u#;'),
    ('make_pair', 'utility', 'auto u# = std::make_pair(1, 2);'),
    ('move', 'utility', 'int u#(int i) {{ return std::move(i); }}'),
    ('swap', 'utility', 'void u#(int& a, int& b) {{ std::swap(a, b); }}'),
    ('forward', 'utility', 'int u#(int&& i) {{ return std::forward<int>(i); }}'),
    ('exchange', 'utility', 'int u#(int i) {{ return std::exchange(i, 2); }}'),
    ('tuple', 'tuple', 'std::tuple<int, char> u#;'),
    ('make_tuple', 'tuple', 'auto u# = std::make_tuple(1);'),
    ('tie', 'tuple', 'void u#(int& i) {{ std::tie(i); }}'),
    ('optional', 'optional', 'std::optional<int> u#;'),
    ('nullopt', 'optional', 'auto u# = std::nullopt;'),
    ('variant', 'variant', 'std::variant<int, char> u#;'),
    ('any', 'any', 'std::any u#;'),
    ('function', 'functional', 'std::function<void()> u#;'),
    ('bind', 'functional', 'auto u# = std::bind([] {{}});'),
    ('less', 'functional', 'std::less<int> u#;'),
    ('plus', 'functional', 'std::plus<int> u#;'),
    ('hash', 'functional', 'std::hash<int> u#;'),
    ('ref', 'functional', 'void u#(int& i) {{ std::ref(i); }}'),
    ('unique_ptr', 'memory', 'std::unique_ptr<int> u#;'),
    ('make_unique', 'memory', 'auto u# = std::make_unique<int>(1);'),
    ('shared_ptr', 'memory', 'std::shared_ptr<int> u#;'),
    ('make_shared', 'memory', 'auto u# = std::make_shared<int>(1);'),
    ('weak_ptr', 'memory', 'std::weak_ptr<int> u#;'),
    ('allocator', 'memory string vector map set', 'std::allocator<int> u#;'),
    ('addressof', 'memory utility', 'int* u#(int& i) {{ return std::addressof(i); }}'),
    ('enable_shared', 'memory', 'struct U# : std::enable_shared_from_this<U#> {{}};'),
    ('sort', 'algorithm', 'void u#(int* a) {{ std::sort(a, a + 2); }}'),
    ('max', 'algorithm', 'int u# = std::max(1, 2);'),
    ('min', 'algorithm', 'int u# = std::min(1, 2);'),
    ('find', 'algorithm', 'int* u#(int* a) {{ return std::find(a, a + 2, 1); }}'),
    ('copy', 'algorithm', 'void u#(int* a, int* b) {{ std::copy(a, a + 1, b); }}'),
    ('fill', 'algorithm', 'void u#(int* a) {{ std::fill(a, a + 1, 2); }}'),
    ('reverse', 'algorithm', 'void u#(int* a) {{ std::reverse(a, a + 1); }}'),
    ('clamp', 'algorithm', 'int u# = std::clamp(1, 2, 3);'),
    ('lower_bound', 'algorithm', 'int* u#(int* a) {{ return std::lower_bound(a, a + 1, 3); }}'),
    ('for_each', 'algorithm', 'void u#(int* a) {{ std::for_each(a, a + 1, [](int) {{}}); }}'),
    ('count_if', 'algorithm', 'long u#(int* a) {{ return std::count_if(a, a + 1, [](int) {{ return true; }}); }}'),
    ('accumulate', 'numeric', 'int u#(int* a) {{ return std::accumulate(a, a + 1, 0); }}'),
    ('iota', 'numeric', 'void u#(int* a) {{ std::iota(a, a + 1, 0); }}'),
    ('gcd', 'numeric', 'int u# = std::gcd(4, 6);'),
    ('cout', 'iostream', 'void u#() {{ std::cout.flush(); }}'),
    ('cin', 'iostream', 'int u#() {{ return std::cin.get(); }}'),
    ('ostream', 'ostream istream iostream sstream fstream', 'void u#(std::ostream& o) {{ o.put(1); }}'),
    ('endl', 'ostream istream iostream sstream fstream', 'void u#(std::ostream& o) {{ o << std::endl; }}'),
    ('istream', 'istream iostream sstream fstream', 'int u#(std::istream& i) {{ return i.get(); }}'),
    ('ostream fwd', 'iosfwd ios istream ostream iostream sstream fstream iomanip streambuf', 'void u#(std::ostream& o);'),
    ('stringstream', 'sstream', 'std::stringstream u#;'),
    ('ostringstream', 'sstream', 'std::ostringstream u#;'),
    ('ifstream', 'fstream', 'std::ifstream u#;'),
    ('ofstream', 'fstream', 'std::ofstream u#;'),
    ('setw', 'iomanip', 'auto u# = std::setw(2);'),
    ('setprecision', 'iomanip', 'auto u# = std::setprecision(2);'),
    ('ios_base', 'ios istream ostream iostream sstream fstream iomanip streambuf', 'auto u# = std::ios_base::in;'),
    ('hex', 'ios istream ostream iostream sstream fstream iomanip streambuf', 'void u#(std::ios_base& b) {{ std::hex(b); }}'),
    ('streampos', 'ios iosfwd string istream ostream iostream sstream fstream iomanip streambuf', 'std::streampos u#;'),
    ('streamsize', 'ios iosfwd string istream ostream iostream sstream fstream iomanip streambuf', 'std::streamsize u#;'),
    ('thread', 'thread', 'std::thread u#;'),
    ('mutex', 'mutex', 'std::mutex u#;'),
    ('lock_guard', 'mutex', 'void u#(std::mutex& m) {{ std::lock_guard<std::mutex> l(m); }}'),
    ('unique_lock', 'mutex', 'std::unique_lock<std::mutex> u#;'),
    ('condition_variable', 'condition_variable', 'std::condition_variable u#;'),
    ('atomic', 'atomic', 'std::atomic<int> u#;'),
    ('future', 'future', 'std::future<int> u#;'),
    ('promise', 'future', 'std::promise<int> u#;'),
    ('shared_mutex', 'shared_mutex', 'std::shared_mutex u#;'),
    ('memory_order', 'atomic', 'auto u# = std::memory_order_acquire;'),
    ('chrono', 'chrono', 'std::chrono::seconds u#;'),
    ('steady', 'chrono', 'auto u# = std::chrono::steady_clock::now();'),
    ('ratio', 'ratio', 'std::ratio<1, 2> u#;'),
    ('exception', 'exception', 'std::exception u#;'),
    ('terminate', 'exception', 'void u#() {{ std::terminate(); }}'),
    ('exception_ptr', 'exception', 'std::exception_ptr u#;'),
    ('runtime_error', 'stdexcept', 'void u#(std::runtime_error& e) {{ e.what(); }}'),
    ('logic_error', 'stdexcept', 'std::logic_error u#("x");'),
    ('out_of_range', 'stdexcept', 'std::out_of_range u#("x");'),
    ('bad_alloc', 'new', 'std::bad_alloc u#;'),
    ('nothrow', 'new', 'int* u#() {{ return new (std::nothrow) int; }}'),
    ('error_code', 'system_error', 'std::error_code u#;'),
    ('errc', 'system_error cerrno', 'auto u# = std::errc::invalid_argument;'),
    ('numeric_limits', 'limits', 'int u# = std::numeric_limits<int>::max();'),
    ('type_info', 'typeinfo', 'const char* u#(const std::type_info& t) {{ return t.name(); }}'),
    ('typeid', 'typeinfo', 'auto* u# = typeid(int).name();'),
    ('bad_cast', 'typeinfo', 'std::bad_cast u#;'),
    ('type_index', 'typeindex', 'void u#(std::type_index t);'),
    ('enable_if', 'type_traits', 'std::enable_if<true, int>::type u#;'),
    ('is_same', 'type_traits', 'bool u# = std::is_same<int, int>::value;'),
    ('is_same_v', 'type_traits', 'bool u# = std::is_same_v<int, int>;'),
    ('decay_t', 'type_traits', 'std::decay_t<int> u#;'),
    ('conditional', 'type_traits', 'std::conditional<true, int, char>::type u#;'),
    ('true_type', 'type_traits', 'std::true_type u#;'),
    ('integral_constant', 'type_traits', 'std::integral_constant<int, 1> u#;'),
    ('initializer_list', 'initializer_list', 'std::initializer_list<int> u#;'),
    ('iterator_traits', 'iterator', 'std::iterator_traits<int*>::value_type u#;'),
    ('back_inserter', 'iterator', 'template <typename T> void u#(T& t) {{ std::back_inserter(t); }}'),
    ('reverse_iterator', 'iterator', 'std::reverse_iterator<int*> u#;'),
    ('distance', 'iterator', 'long u#(int* a) {{ return std::distance(a, a + 1); }}'),
    ('next', 'iterator', 'int* u#(int* a) {{ return std::next(a); }}'),
    ('advance', 'iterator', 'void u#(int* a) {{ std::advance(a, 1); }}'),
    ('bitset', 'bitset', 'std::bitset<3> u#;'),
    ('complex', 'complex', 'std::complex<double> u#;'),
    ('valarray', 'valarray', 'std::valarray<int> u#;'),
    ('mt19937', 'random', 'std::mt19937 u#;'),
    ('uniform_int', 'random', 'std::uniform_int_distribution<int> u#;'),
    ('regex', 'regex', 'std::regex u#;'),
    ('locale', 'locale', 'std::locale u#;'),
    ('span', 'span', 'std::span<int> u#;'),
    ('filesystem', 'filesystem', 'std::filesystem::path u#;'),
    ('source_location', 'source_location', 'auto u# = std::source_location::current();'),
    ('strong_ordering', 'compare', 'auto u# = std::strong_ordering::less;'),
    ('same_as', 'concepts', 'bool u# = std::same_as<int, int>;'),
    ('popcount', 'bit', 'int u# = std::popcount(3u);'),
    ('pi', 'numbers', 'double u# = std::numbers::pi;'),
    ('ranges sort', 'algorithm', 'void u#(int (&a)[2]) {{ std::ranges::sort(a); }}'),
    ('ranges begin', 'ranges iterator', 'int* u#(int (&a)[2]) {{ return std::ranges::begin(a); }}'),
    ('from_chars', 'charconv', 'void u#(const char* a, int& i) {{ std::from_chars(a, a + 1, i); }}'),
    ('coroutine_handle', 'coroutine', 'std::coroutine_handle<> u#;'),
    ('byte', 'cstddef', 'std::byte u#;'),
    ('barrier', 'barrier', 'std::barrier<> u#(1);'),
    ('latch', 'latch', 'std::latch u#(1);'),
    ('semaphore', 'semaphore', 'std::binary_semaphore u#(1);'),
    ('stop_token', 'stop_token', 'std::stop_token u#;'),
    ('format', 'format', 'auto u# = std::format("x");'),
    ('expected', 'expected', 'std::expected<int, int> u#(1);'),
]

# name: (C headers without .h, use)
C = {
    'size_t': ('signal stddef stdio stdlib string time wchar uchar', '{s}size_t u#;'),
    'ptrdiff_t': ('stddef', '{s}ptrdiff_t u#;'),
    'NULL': ('stddef stdio stdlib string time locale wchar', 'void* u# = NULL;'),
    'offsetof': ('stddef', 'struct U# {{ int a; }}; int w#[offsetof(struct U#, a) + 1];'),
    'max_align_t': ('stddef', '{s}max_align_t u#;'),
    'printf': ('stdio', 'void u#(void) {{ {s}printf("x"); }}'),
    'FILE': ('stdio wchar', '{s}FILE* u#;'),
    'stdout': ('stdio', 'void* u#(void) {{ return stdout; }}'),
    'fopen': ('stdio', 'void u#(void) {{ {s}fopen("a", "b"); }}'),
    'EOF': ('stdio', 'int u# = EOF;'),
    'SEEK_SET': ('stdio', 'int u# = SEEK_SET;'),
    'snprintf': ('stdio', 'void u#(char* p) {{ {s}snprintf(p, 1, "x"); }}'),
    'fpos_t': ('stdio', '{s}fpos_t u#;'),
    'remove': ('stdio', 'void u#(void) {{ {s}remove("x"); }}'),
    'BUFSIZ': ('stdio', 'int u#[BUFSIZ];'),
    'malloc': ('stdlib', 'void* u#(void) {{ return {s}malloc(1); }}'),
    'free': ('stdlib', 'void u#(void* p) {{ {s}free(p); }}'),
    'exit': ('stdlib', 'void u#(void) {{ {s}exit(1); }}'),
    'atoi': ('stdlib', 'int u#(void) {{ return {s}atoi("1"); }}'),
    'getenv': ('stdlib', 'char* u#(void) {{ return {s}getenv("1"); }}'),
    'abs': ('stdlib math', 'int u#(int i) {{ return {s}abs(i); }}'),
    'strtol': ('stdlib', 'long u#(void) {{ return {s}strtol("1", 0, 10); }}'),
    'EXIT_FAILURE': ('stdlib', 'int u# = EXIT_FAILURE;'),
    'qsort': ('stdlib', 'void u#(void* p, int (*f)(const void*, const void*)) {{ {s}qsort(p, 1, 1, f); }}'),
    'div_t': ('stdlib', '{s}div_t u#;'),
    'rand': ('stdlib', 'int u#(void) {{ return {s}rand(); }}'),
    'RAND_MAX': ('stdlib', 'int u# = RAND_MAX;'),
    'abort': ('stdlib', 'void u#(void) {{ {s}abort(); }}'),
    'strlen': ('string', 'int u#(const char* p) {{ return {s}strlen(p); }}'),
    'memcpy': ('string', 'void u#(void* p, void* q) {{ {s}memcpy(p, q, 1); }}'),
    'strcmp': ('string', 'int u#(const char* p) {{ return {s}strcmp(p, p); }}'),
    'memset': ('string', 'void u#(void* p) {{ {s}memset(p, 0, 1); }}'),
    'strerror': ('string', 'char* u#(void) {{ return {s}strerror(1); }}'),
    'strchr': ('string', 'const char* u#(const char* p) {{ return {s}strchr(p, 1); }}'),
    'isalpha': ('ctype', 'int u#(int c) {{ return {s}isalpha(c); }}'),
    'toupper': ('ctype', 'int u#(int c) {{ return {s}toupper(c); }}'),
    'isdigit': ('ctype', 'int u#(int c) {{ return {s}isdigit(c); }}'),
    'assert': ('assert', 'void u#(int i) {{ assert(i); }}'),
    'errno': ('errno', 'int u#(void) {{ return errno; }}'),
    'EINVAL': ('errno', 'int u# = EINVAL;'),
    'ENOENT': ('errno', 'int u# = ENOENT;'),
    'ERANGE': ('errno', 'int u# = ERANGE;'),
    'int32_t': ('stdint inttypes', '{s}int32_t u#;'),
    'uint8_t': ('stdint inttypes', '{s}uint8_t u#;'),
    'uintptr_t': ('stdint inttypes', '{s}uintptr_t u#;'),
    'INT64_MAX': ('stdint inttypes', 'long long u# = INT64_MAX;'),
    'uint64_t': ('stdint inttypes', '{s}uint64_t u#;'),
    'int_fast16_t': ('stdint inttypes', '{s}int_fast16_t u#;'),
    'intmax_t': ('stdint inttypes', '{s}intmax_t u#;'),
    'UINT8_C': ('stdint inttypes', 'int u# = UINT8_C(3);'),
    'PRId64': ('inttypes', 'const char* u# = PRId64;'),
    'imaxabs': ('inttypes', 'long u#(void) {{ return {s}imaxabs(1); }}'),
    'INT_MAX': ('limits', 'int u# = INT_MAX;'),
    'CHAR_BIT': ('limits', 'int u# = CHAR_BIT;'),
    'ULLONG_MAX': ('limits', 'unsigned long long u# = ULLONG_MAX;'),
    'DBL_MAX': ('float', 'double u# = DBL_MAX;'),
    'FLT_EPSILON': ('float', 'double u# = FLT_EPSILON;'),
    'sqrt': ('math', 'double u#(double d) {{ return {s}sqrt(d); }}'),
    'fabs': ('math', 'double u#(double d) {{ return {s}fabs(d); }}'),
    'M_PI': ('math', 'double u# = M_PI;'),
    'isnan': ('math', 'int u#(double d) {{ return {s}isnan(d); }}'),
    'HUGE_VAL': ('math', 'double u# = HUGE_VAL;'),
    'INFINITY': ('math float', 'double u# = INFINITY;'),
    'pow': ('math', 'double u#(double d) {{ return {s}pow(d, d); }}'),
    'floor': ('math', 'double u#(double d) {{ return {s}floor(d); }}'),
    'NAN': ('math float', 'double u# = NAN;'),
    'time_t': ('time sys/types', '{s}time_t u#;'),
    'time': ('time', 'void u#(void) {{ {s}time(0); }}'),
    'tm': ('time wchar', 'struct {s}tm u#;'),
    'clock': ('time', 'long u#(void) {{ return {s}clock(); }}'),
    'CLOCKS_PER_SEC': ('time', 'long u# = CLOCKS_PER_SEC;'),
    'strftime': ('time', 'void u#(char* p, const struct {s}tm* t) {{ {s}strftime(p, 1, "x", t); }}'),
    'timespec': ('time', 'struct {s}timespec u#;'),
    'va_list': ('stdarg stdio', 'void u#(int i, ...) {{ {s}va_list l; va_start(l, i); va_end(l); }}'),
    'va_arg': ('stdarg', 'int u#(int i, ...) {{ {s}va_list l; va_start(l, i); i = va_arg(l, int); va_end(l); return i; }}'),
    'signal': ('signal', 'void u#(void) {{ {s}signal(SIGINT, SIG_DFL); }}'),
    'SIGTERM': ('signal', 'int u# = SIGTERM;'),
    'sig_atomic_t': ('signal', '{s}sig_atomic_t u#;'),
    'raise': ('signal', 'void u#(void) {{ {s}raise(2); }}'),
    'jmp_buf': ('setjmp', '{s}jmp_buf u#;'),
    'setlocale': ('locale', 'char* u#(void) {{ return {s}setlocale(LC_ALL, ""); }}'),
    'lconv': ('locale', 'struct {s}lconv* u#(void) {{ return {s}localeconv(); }}'),
    'wchar fn': ('wchar stddef', 'int u#(const wchar_t* p) {{ return {s}wcslen(p); }}'),
    'mbstate_t': ('wchar uchar', '{s}mbstate_t u#;'),
    'wint_t': ('wchar wctype', '{s}wint_t u#;'),
    'iswalpha': ('wctype', 'int u#(void) {{ return {s}iswalpha(1); }}'),
    'fenv': ('fenv', 'int u# = FE_ALL_EXCEPT;'),
    'fesetround': ('fenv', 'int u#(void) {{ return {s}fesetround(0); }}'),
}
POSIX = {
    'pid_t': ('unistd.h sys/types.h signal.h sched.h fcntl.h termios.h time.h sys/wait.h', 'pid_t u#;'),
    'ssize_t': ('unistd.h sys/types.h stdio.h sys/socket.h sys/uio.h', 'ssize_t u#;'),
    'off_t': ('sys/types.h unistd.h fcntl.h stdio.h sys/mman.h sys/stat.h', 'off_t u#;'),
    'read': ('unistd.h', 'long u#(void* p) {{ return read(0, p, 1); }}'),
    'close': ('unistd.h', 'int u#(void) {{ return close(1); }}'),
    'fork': ('unistd.h', 'int u#(void) {{ return fork(); }}'),
    'STDIN_FILENO': ('unistd.h', 'int u# = STDIN_FILENO;'),
    'getpid': ('unistd.h', 'int u#(void) {{ return getpid(); }}'),
    'usleep': ('unistd.h', 'void u#(void) {{ usleep(1); }}'),
    'environ': ('unistd.h', 'char** u#(void) {{ return environ; }}'),
    'open': ('fcntl.h', 'int u#(void) {{ return open("x", 0); }}'),
    'O_RDONLY': ('fcntl.h', 'int u# = O_RDONLY;'),
    'F_GETFD': ('fcntl.h', 'int u# = F_GETFD;'),
    'stat': ('sys/stat.h', 'int u#(struct stat* s) {{ return stat("x", s); }}'),
    'S_ISDIR': ('sys/stat.h', 'int u#(int m) {{ return S_ISDIR(m); }}'),
    'mkdir': ('sys/stat.h', 'int u#(void) {{ return mkdir("x", 0); }}'),
    'mode_t': ('sys/types.h sys/stat.h fcntl.h sys/mman.h', 'mode_t u#;'),
    'uid_t': ('sys/types.h unistd.h sys/stat.h pwd.h signal.h', 'uid_t u#;'),
    'pthread_t': ('pthread.h sys/types.h', 'pthread_t u#;'),
    'pthread_create': ('pthread.h', 'void u#(pthread_t* t) {{ pthread_create(t, 0, 0, 0); }}'),
    'pthread_mutex_t': ('pthread.h sys/types.h', 'pthread_mutex_t u#;'),
    'PTHREAD_MUTEX_INITIALIZER': ('pthread.h', 'pthread_mutex_t u# = PTHREAD_MUTEX_INITIALIZER;'),
    'sockaddr': ('sys/socket.h', 'struct sockaddr u#;'),
    'socket': ('sys/socket.h', 'int u#(void) {{ return socket(1, 2, 3); }}'),
    'AF_INET': ('sys/socket.h', 'int u# = AF_INET;'),
    'SOCK_STREAM': ('sys/socket.h', 'int u# = SOCK_STREAM;'),
    'SOL_SOCKET': ('sys/socket.h', 'int u# = SOL_SOCKET;'),
    'SO_REUSEADDR': ('sys/socket.h', 'int u# = SO_REUSEADDR;'),
    'sockaddr_in': ('netinet/in.h', 'struct sockaddr_in u#;'),
    'htons': ('arpa/inet.h netinet/in.h', 'int u#(void) {{ return htons(1); }}'),
    'inet_pton': ('arpa/inet.h', 'void u#(void* p) {{ inet_pton(1, "x", p); }}'),
    'getaddrinfo': ('netdb.h', 'void u#(struct addrinfo** a) {{ getaddrinfo("a", "b", 0, a); }}'),
    'socklen_t': ('sys/socket.h netdb.h arpa/inet.h netinet/in.h unistd.h', 'socklen_t u#;'),
    'in_addr_t': ('netinet/in.h arpa/inet.h', 'in_addr_t u#;'),
    'mmap': ('sys/mman.h', 'void* u#(void) {{ return mmap(0, 1, PROT_READ, MAP_PRIVATE, 0, 0); }}'),
    'select': ('sys/select.h', 'int u#(fd_set* f, struct timeval* t) {{ return select(1, f, f, f, t); }}'),
    'fd_set': ('sys/select.h sys/time.h', 'fd_set u#;'),
    'FD_SET': ('sys/select.h sys/time.h', 'void u#(fd_set* f) {{ FD_SET(1, f); }}'),
    'poll': ('poll.h', 'int u#(struct pollfd* p) {{ return poll(p, 1, POLLIN); }}'),
    'epoll': ('sys/epoll.h', 'int u# = EPOLLIN;'),
    'ioctl': ('sys/ioctl.h', 'int u#(void) {{ return ioctl(1, FIONREAD); }}'),
    'gettimeofday': ('sys/time.h', 'void u#(struct timeval* t) {{ gettimeofday(t, 0); }}'),
    'timeval': ('sys/time.h sys/select.h sys/resource.h', 'struct timeval u#;'),
    'clock_gettime': ('time.h', 'void u#(struct timespec* t) {{ clock_gettime(CLOCK_REALTIME, t); }}'),
    'localtime_r': ('time.h', 'void u#(void) {{ localtime_r(0, 0); }}'),
    'sigaction': ('signal.h', 'void u#(struct sigaction* a) {{ sigaction(1, a, 0); }}'),
    'sigset_t': ('signal.h sys/select.h', 'sigset_t u#;'),
    'siginfo_t': ('signal.h sys/wait.h', 'siginfo_t u#;'),
    'SA_RESTART': ('signal.h', 'int u# = SA_RESTART;'),
    'kill': ('signal.h', 'void u#(void) {{ kill(1, 2); }}'),
    'wait': ('sys/wait.h', 'void u#(int* i) {{ wait(i); }}'),
    'WIFEXITED': ('sys/wait.h stdlib.h', 'int u#(int i) {{ return WIFEXITED(i); }}'),
    'DIR': ('dirent.h', 'DIR* u#;'),
    'readdir': ('dirent.h', 'void u#(DIR* d) {{ readdir(d); }}'),
    'dirent': ('dirent.h', 'int u#(struct dirent* d) {{ return d->d_name[0]; }}'),
    'DT_DIR': ('dirent.h', 'int u# = DT_DIR;'),
    'dlopen': ('dlfcn.h', 'void* u#(void) {{ return dlopen("x", RTLD_NOW); }}'),
    'getopt': ('unistd.h getopt.h', 'int u#(char** v) {{ return getopt(1, v, "x"); }}'),
    'optarg': ('unistd.h getopt.h', 'char* u#(void) {{ return optarg; }}'),
    'getopt_long': ('getopt.h', 'struct option u#;'),
    'rlimit': ('sys/resource.h', 'struct rlimit u#;'),
    'getrlimit': ('sys/resource.h', 'void u#(struct rlimit* r) {{ getrlimit(RLIMIT_CORE, r); }}'),
    'uname': ('sys/utsname.h', 'void u#(struct utsname* n) {{ uname(n); }}'),
    'syslog': ('syslog.h', 'void u#(void) {{ syslog(LOG_ERR, "x"); }}'),
    'passwd': ('pwd.h', 'struct passwd* u#(void) {{ return getpwuid(1); }}'),
    'regex_t': ('regex.h', 'regex_t u#;'),
    'fnmatch': ('fnmatch.h', 'int u#(void) {{ return fnmatch("x", "y", FNM_PATHNAME); }}'),
    'glob': ('glob.h', 'glob_t u#;'),
    'sem_t': ('semaphore.h', 'sem_t u#;'),
    'termios': ('termios.h', 'struct termios u#;'),
    'TCSANOW': ('termios.h', 'int u# = TCSANOW;'),
    'iovec': ('sys/uio.h sys/socket.h', 'struct iovec u#;'),
    'sysconf': ('unistd.h', 'long u#(void) {{ return sysconf(_SC_PAGESIZE); }}'),
    'strdup': ('string.h', 'char* u#(void) {{ return strdup("x"); }}'),
    'strcasecmp': ('strings.h', 'int u#(void) {{ return strcasecmp("x", "y"); }}'),
    'PATH_MAX': ('limits.h', 'char u#[PATH_MAX];'),
    'sched': ('sched.h', 'void u#(void) {{ sched_yield(); }}'),
    'cpu_set_t': ('sched.h', 'cpu_set_t u#;'),
    'basename': ('libgen.h', 'char* u#(char* p) {{ return dirname(p); }}'),
    'alloca': ('alloca.h', 'void* u#(void) {{ return alloca(2); }}'),
    'setenv': ('stdlib.h', 'void u#(void) {{ setenv("a", "b", 1); }}'),
    'ftw': ('ftw.h', 'int u# = FTW_F;'),
    'utimbuf': ('utime.h', 'struct utimbuf u#;'),
    'statvfs': ('sys/statvfs.h', 'struct statvfs u#;'),
    'ipc': ('sys/ipc.h sys/types.h', 'key_t u#(void) {{ return ftok("x", 1); }}'),
    'shmget': ('sys/shm.h', 'void u#(void) {{ shmget(1, 2, 3); }}'),
    'iconv_t': ('iconv.h', 'iconv_t u#;'),
    'wordexp': ('wordexp.h', 'wordexp_t u#;'),
}
