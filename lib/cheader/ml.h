template <typename T> struct list { T* contents; };
template <typename T> using List = list<T>*;
template <class T> int listLength(List<T> l);
template <class T> List<T> newList();
template <class T> T listGet(List<T> l, int i);
template <class T> List<T> listAppend(List<T> in, T e);
template <class T> List<T> listConcat(List<T> in, List<T> e);
struct set; 
extern "C" { set* set_create(); set* set_add(set* s, int x); set* set_remove(set* s, int x); int set_contains(set* s, int v); }
template <typename...T> struct tup { int c[sizeof...(T)]; };
template <typename...T> using Tuple = tup<T...>*;
template <class...T> Tuple<T...> MakeTuple(T...args);
template <class...T, int I=0> int tupleGet(Tuple<T...> t, int i);
extern "C" int uf(int a, int b);
namespace std { inline namespace __1 { template <class T> class allocator; 
template <class T, class A = allocator<T> > class vector { T* b; T* e; T* c; public:
 vector(); vector(const vector&); ~vector(); unsigned long size() const; T& operator[](unsigned long i); const T& operator[](unsigned long i) const; void push_back(const T& x); void push_back(T&& x); }; } }
int integer_sqrt(int); int integer_exp(int); void other(int);
