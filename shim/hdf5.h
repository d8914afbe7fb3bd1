// Simulated HDF5: the subset of the HDF5 1.8 C API that the repository uses, implemented in sim/hdf5_stub.cpp
// on top of the simulated disk. Every call is a fault point.
#ifndef VERIF_HDF5_STUB_H
#define VERIF_HDF5_STUB_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
typedef std::int64_t hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
#define H5P_DEFAULT hid_t(0)
#define H5S_ALL hid_t(0)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5T_VARIABLE ((std::size_t)-1)
#define H5T_NATIVE_DOUBLE hid_t(11)
#define H5T_NATIVE_FLOAT hid_t(12)
#define H5T_NATIVE_INT hid_t(13)
#define H5T_NATIVE_UINT hid_t(14)
#define H5T_NATIVE_LONG hid_t(15)
#define H5T_FORTRAN_S1 hid_t(16)
#define H5T_C_S1 hid_t(17)
#define H5T_NATIVE_ULONG hid_t(18)
#define H5T_NATIVE_CHAR hid_t(19)
#define H5T_NATIVE_UINT8 hid_t(20)
#define HOFFSET(S,M) offsetof(S,M)
enum H5T_class_t { H5T_COMPOUND = 6 };
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
enum H5F_scope_t { H5F_SCOPE_LOCAL = 0, H5F_SCOPE_GLOBAL = 1 };
extern "C" {
hid_t H5Fcreate( const char*, unsigned, hid_t, hid_t );
hid_t H5Fopen( const char*, unsigned, hid_t );
herr_t H5Fflush( hid_t, H5F_scope_t );
herr_t H5Fclose( hid_t );
hid_t H5Gopen2( hid_t, const char*, hid_t );
hid_t H5Gcreate2( hid_t, const char*, hid_t, hid_t, hid_t );
herr_t H5Gclose( hid_t );
htri_t H5Lexists( hid_t, const char*, hid_t );
hid_t H5Screate_simple( int, const hsize_t*, const hsize_t* );
herr_t H5Sselect_hyperslab( hid_t, H5S_seloper_t, const hsize_t*, const hsize_t*, const hsize_t*, const hsize_t* );
int H5Sget_simple_extent_ndims( hid_t );
int H5Sget_simple_extent_dims( hid_t, hsize_t*, hsize_t* );
herr_t H5Sclose( hid_t );
hid_t H5Tcopy( hid_t );
hid_t H5Tcreate( H5T_class_t, std::size_t );
hid_t H5Tarray_create2( hid_t, unsigned, const hsize_t* );
herr_t H5Tinsert( hid_t, const char*, std::size_t, hid_t );
herr_t H5Tset_size( hid_t, std::size_t );
htri_t H5Tequal( hid_t, hid_t );
herr_t H5Tclose( hid_t );
hid_t H5Dcreate2( hid_t, const char*, hid_t, hid_t, hid_t, hid_t, hid_t );
hid_t H5Dopen2( hid_t, const char*, hid_t );
hid_t H5Dget_type( hid_t );
hid_t H5Dget_space( hid_t );
herr_t H5Dwrite( hid_t, hid_t, hid_t, hid_t, hid_t, const void* );
herr_t H5Dread( hid_t, hid_t, hid_t, hid_t, hid_t, void* );
herr_t H5Dclose( hid_t );
}
#endif
