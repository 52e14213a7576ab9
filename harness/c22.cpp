// C22: the records of one program in differently configured builds are compared.
#include "prog.h"
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  mon::group("vectors/int", 500, vectors<int>); mon::group("sources/int", 100, vectors_lists<int>);
#elif PART == 1
  mon::group("vectors/double", 500, vectors<double>); mon::group("sources/double", 100, vectors_lists<double>); mon::group("sources/float", 100, vectors_lists<float>);
#elif PART == 2
  mon::group("matrices/int-row", 300, matrices<int, row_basis, row_major>); mon::group("matrices/double-col", 300, matrices<double, col_basis, col_major>); mon::group("matrices/float-mixed", 300, matrices<float, row_basis, col_major>);
#else
  mon::group("builders/double-col", 300, builders<double, col_basis, row_major>); mon::group("builders/double-row", 300, builders<double, row_basis, row_major>); mon::group("builders/float-row", 200, builders<float, row_basis, col_major>);
#endif
  return mon::finish();
}
