// Declaration-only stand-ins for the C++ standard library, used only to parse
// /repo's sources for verification (the real library is used in every build).
// Every operation declared here is given meaning by engine/builtins (trusted).
#ifndef VSTL_H
#define VSTL_H
typedef unsigned long size_t;
typedef long ssize_t;
typedef long ptrdiff_t;
typedef long time_t;
#define NULL __null
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define UINT_MAX 4294967295U
#define LONG_MAX 9223372036854775807L
#define LONG_MIN (-LONG_MAX-1L)
#define DBL_MAX 1.7976931348623157e308
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#define RAND_MAX 2147483647
#define EOF (-1)
#define assert(x) ((void)0)
extern "C" {
struct timeval { long tv_sec; long tv_usec; };
struct timezone { int a; };
int gettimeofday(struct timeval*, void*);
time_t time(time_t*);
int printf(const char*, ...);
int fprintf(void*, const char*, ...);
int sprintf(char*, const char*, ...);
int snprintf(char*, size_t, const char*, ...);
int sscanf(const char*, const char*, ...);
int puts(const char*);
int putchar(int);
int getchar(void);
void exit(int) __attribute__((noreturn));
void abort(void) __attribute__((noreturn));
int atoi(const char*);
long atol(const char*);
double atof(const char*);
long strtol(const char*, char**, int);
int rand(void);
void srand(unsigned);
int abs(int);
double fabs(double);
double pow(double,double);
double sqrt(double);
double floor(double);
double ceil(double);
size_t strlen(const char*);
size_t strspn(const char*, const char*);
size_t strcspn(const char*, const char*);
int strcmp(const char*, const char*);
int strncmp(const char*, const char*, size_t);
char* strcpy(char*, const char*);
char* strncpy(char*, const char*, size_t);
char* strchr(const char*, int);
char* strtok(char*, const char*);
char* strcat(char*, const char*);
void* memset(void*, int, size_t);
void* memcpy(void*, const void*, size_t);
void* malloc(size_t);
void free(void*);
int isspace(int);
int isdigit(int);
int isalpha(int);
}
namespace std {
using ::size_t; using ::ptrdiff_t; using ::time_t; using ::time; using ::printf; using ::sscanf; using ::exit; using ::atoi;
using ::rand; using ::srand; using ::abs; using ::fabs; using ::strlen; using ::strcmp; using ::memset; using ::memcpy;
typedef long streamsize;
double abs(double);
typedef decltype(nullptr) nullptr_t;
template<class T> class initializer_list { public: const T* begin() const; const T* end() const; size_t size() const; };
template<class T> struct remove_reference { typedef T type; };
template<class T> struct remove_reference<T&> { typedef T type; };
template<class T> struct remove_reference<T&&> { typedef T type; };
template<class T> typename remove_reference<T>::type&& move(T&&);
template<class T> T&& forward(typename remove_reference<T>::type&);
template<class A, class B> struct pair { A first; B second; pair(); pair(const A&, const B&); };
template<class A, class B> pair<A,B> make_pair(A, B);
template<class T> void swap(T&, T&);
template<class T> const T& max(const T&, const T&);
template<class T> const T& min(const T&, const T&);
template<class T> class vector {
public:
  class const_iterator;
  class iterator { public: iterator(); T& operator*() const; T* operator->() const; iterator& operator++(); iterator operator++(int);
    iterator& operator--(); iterator operator--(int); iterator operator+(long) const; iterator operator-(long) const; long operator-(const iterator&) const;
    iterator& operator+=(long); iterator& operator-=(long); T& operator[](long) const;
    bool operator==(const iterator&) const; bool operator!=(const iterator&) const; bool operator<(const iterator&) const; };
  class const_iterator { public: const_iterator(); const_iterator(const iterator&); const T& operator*() const; const T* operator->() const; const_iterator& operator++(); const_iterator operator++(int);
    const_iterator& operator--(); const_iterator operator+(long) const; const_iterator operator-(long) const; long operator-(const const_iterator&) const;
    bool operator==(const const_iterator&) const; bool operator!=(const const_iterator&) const; bool operator<(const const_iterator&) const; };
  class reverse_iterator { public: T& operator*() const; T* operator->() const; reverse_iterator& operator++(); reverse_iterator operator++(int); bool operator==(const reverse_iterator&) const; bool operator!=(const reverse_iterator&) const; };
  typedef size_t size_type; typedef T value_type;
  vector(); explicit vector(size_t); vector(size_t, const T&); vector(const vector&); vector(initializer_list<T>); ~vector();
  vector& operator=(const vector&);
  T& operator[](size_t); const T& operator[](size_t) const; T& at(size_t); const T& at(size_t) const;
  T& front(); T& back(); const T& front() const; const T& back() const; T* data();
  size_t size() const; bool empty() const; void reserve(size_t); void resize(size_t); void resize(size_t, const T&); void clear();
  void push_back(const T&); template<class... A> void emplace_back(A&&...); void pop_back();
  iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const;
  reverse_iterator rbegin(); reverse_iterator rend();
  iterator erase(iterator); iterator erase(iterator, iterator); iterator insert(iterator, const T&); void swap(vector&);
};
template<class T> class list {
public:
  class iterator { public: T& operator*() const; T* operator->() const; iterator& operator++(); iterator operator++(int); bool operator==(const iterator&) const; bool operator!=(const iterator&) const; };
  typedef iterator const_iterator;
  list(); list(const list&); ~list(); list& operator=(const list&);
  T& front(); T& back(); size_t size() const; bool empty() const; void clear();
  void push_back(const T&); void push_front(const T&); void pop_front(); void pop_back(); iterator begin(); iterator end(); iterator erase(iterator);
  template<class... A> void emplace_back(A&&...); template<class... A> void emplace_front(A&&...);
};
template<class T> class set {
public:
  class iterator { public: const T& operator*() const; const T* operator->() const; iterator& operator++(); iterator operator++(int); iterator& operator--(); iterator operator--(int); bool operator==(const iterator&) const; bool operator!=(const iterator&) const; };
  typedef iterator const_iterator;
  class reverse_iterator { public: const T& operator*() const; reverse_iterator& operator++(); bool operator==(const reverse_iterator&) const; bool operator!=(const reverse_iterator&) const; };
  set(); set(const set&); ~set(); pair<iterator,bool> insert(const T&); size_t erase(const T&); size_t size() const; bool empty() const; size_t count(const T&) const; void clear();
  iterator begin() const; iterator end() const; iterator find(const T&) const; reverse_iterator rbegin() const; reverse_iterator rend() const;
};
template<size_t N> class bitset {
public:
  class reference { public: operator bool() const; reference& operator=(bool); };
  bitset(); bitset(unsigned long); bitset& operator&=(const bitset&); bitset& operator|=(const bitset&); bitset& operator^=(const bitset&);
  bitset& operator<<=(size_t); bitset& operator>>=(size_t); bitset operator<<(size_t) const; bitset operator>>(size_t) const;
  bitset& set(); bitset& set(size_t, bool = true); bitset& reset(); bitset& reset(size_t); bitset& flip(); bitset& flip(size_t); bitset operator~() const;
  bool operator[](size_t) const; reference operator[](size_t);
  size_t count() const; size_t size() const; bool test(size_t) const; bool any() const; bool none() const; bool all() const;
  bool operator==(const bitset&) const; bool operator!=(const bitset&) const;
};
template<size_t N> bitset<N> operator&(const bitset<N>&, const bitset<N>&);
template<size_t N> bitset<N> operator|(const bitset<N>&, const bitset<N>&);
template<size_t N> bitset<N> operator^(const bitset<N>&, const bitset<N>&);
class string { public: string(); string(const char*); string(const string&); ~string(); string& operator=(const string&); string& operator=(const char*);
  size_t size() const; size_t length() const; bool empty() const; const char* c_str() const; char& operator[](size_t); const char& operator[](size_t) const; string& operator+=(const string&); string& operator+=(char); void clear();
  static const size_t npos = -1; size_t find(char, size_t=0) const; size_t find(const string&, size_t=0) const; string substr(size_t, size_t=npos) const; char& back(); void push_back(char); string& assign(size_t, char); string& assign(const string&); string(size_t, char); char* data(); void resize(size_t); void reserve(size_t); bool operator<(const string&) const; };
bool operator==(const string&, const string&); bool operator==(const string&, const char*); bool operator!=(const string&, const char*); bool operator!=(const string&, const string&);
string operator+(const string&, const string&); string operator+(const string&, const char*);
string to_string(int);
int stoi(const string&);
class ios { public: enum openmode { in = 8, out = 16, trunc = 32, app = 1 }; bool operator!() const; explicit operator bool() const; bool fail() const; bool good() const; bool eof() const; bool bad() const; };
typedef ios ios_base;
class ostream; class istream;
ostream& endl(ostream&); ostream& flush(ostream&);
class ostream : public ios { public: ostream& operator<<(int); ostream& operator<<(unsigned); ostream& operator<<(long); ostream& operator<<(unsigned long); ostream& operator<<(double); ostream& operator<<(bool);
  ostream& operator<<(const char*); ostream& operator<<(char); ostream& operator<<(const string&); ostream& operator<<(ostream& (*)(ostream&)); ostream& write(const char*, streamsize); ostream& put(char); ostream& flush(); };
template<size_t N> ostream& operator<<(ostream&, const bitset<N>&);
class istream : public ios { public: istream& operator>>(int&); istream& operator>>(char&); istream& operator>>(string&); istream& getline(char*, streamsize); istream& getline(char*, streamsize, char); int get(); int peek(); istream& ignore(streamsize, int); };
istream& getline(istream&, string&); istream& getline(istream&, string&, char);
class ifstream : public istream { public: ifstream(); ifstream(const char*); ifstream(const char*, int); ~ifstream(); void open(const char*); void open(const char*, int); void close(); bool is_open() const; };
class ofstream : public ostream { public: ofstream(); ofstream(const char*); ofstream(const char*, int); ~ofstream(); void open(const char*); void open(const char*, int); void close(); bool is_open() const; };
class istringstream : public istream { public: istringstream(); istringstream(const string&); };
class stringstream : public istream { public: stringstream(); stringstream(const string&); string str() const; };
extern ostream cout; extern ostream cerr; extern istream cin;
struct smanip {}; smanip setw(int); smanip setprecision(int); ostream& operator<<(ostream&, smanip);
template<class I, class T> I find(I, I, const T&);
template<class I> void sort(I, I);
template<class I> void reverse(I, I);
template<class I, class F> bool any_of(I, I, F);
template<class I, class F> bool all_of(I, I, F);
template<class I, class F> bool none_of(I, I, F);
template<class I, class T> void fill(I, I, const T&);
template<class T> class unique_ptr { public: unique_ptr(); explicit unique_ptr(T*); ~unique_ptr(); T* operator->() const; T& operator*() const; T* get() const; T* release(); void reset(T* = nullptr); explicit operator bool() const; };
template<class T> class numeric_limits { public: static T max(); static T min(); };
class exception { public: virtual const char* what() const; };
class runtime_error : public exception { public: runtime_error(const char*); };
class out_of_range : public exception { public: out_of_range(const char*); };
}
using std::ptrdiff_t;
#endif
