// Vocabulary of the specification units.  Nothing here is ever executed: the units are only parsed and interpreted
// abstractly (sa/spec.py gives each name its meaning).
#ifndef VERIF_SPEC_V_H_
#define VERIF_SPEC_V_H_
namespace v {
int any_int(const char *name, int i = 0);         // an arbitrary integer
double any_real(const char *name, int i = 0);     // an arbitrary real
bool any_bool(const char *name, int i = 0);
template<class T> T &any(const char *name, int i = 0);   // an arbitrary object of dynamic type T (knots nondecreasing)
void assume(bool b);
void prove(bool b, const char *what);
void is(double a, double b);    // assume(a == b), and write b for a from here on (not inside a branch)
void note(double x, const char *what);
template<class T> std::vector<double> numbers(const T &text);   // the numbers in a string or text stream, in order
std::vector<double> written();                     // the numbers in the last file written
template<class F> bool throws(F f) { f(); return true; }               // does calling f end in an exception
template<class E, class F> bool throws_a(F f) { f(); return true; }    // ... of (a class derived from) E
template<class F> bool inside(F f) { f(); return true; }  // f uses no subscript outside its container
template<class F> auto abstractly(F f) -> decltype(f()) { return f(); }  // recursive functions stay values (induction hypothesis)
template<class F> bool forall(int n, F f) { return f(n); }        // f(k) for every 0 <= k < n
template<class F> bool exists(int n, F f) { return f(n); }
template<class F> double sum(int n, F f) { return f(n); }
template<class F> void each(int n, F f) { f(n); }          // f(k) for an arbitrary 0 <= k < n, effects discarded
}
#endif
