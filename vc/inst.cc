// instantiates the templates of clingcon/util.hh at the types clingcon uses
#include <clingcon/util.hh>
#include <clingcon/base.hh>
namespace Clingcon {
#define SC(I) template I safe_add<I>(I, I); template I safe_sub<I>(I, I); template I safe_mul<I>(I, I); template I safe_div<I>(I, I); template I safe_mod<I>(I, I); template I safe_inv<I>(I); 
SC(int)
SC(long)
template int midpoint<int>(int, int) noexcept;
template int floordiv<int>(int, int);
template int ceildiv<int>(int, int);
template long floordiv<long>(long, long);
template long ceildiv<long>(long, long);
template int safe_cast<int, unsigned>(unsigned);
template unsigned safe_cast<unsigned, int>(int);
template int safe_cast<int, long>(long);
template int safe_cast<int, unsigned long>(unsigned long);
template unsigned safe_cast<unsigned, unsigned long>(unsigned long);
template unsigned safe_cast<unsigned, long>(long);
template class IntervalSet<int>;
template int check_valid_value<int>(int);
template int check_valid_value<long>(long);
struct EnumF { auto operator()(int) -> bool; };
template void IntervalSet<int>::enumerate<EnumF>(EnumF);
}
