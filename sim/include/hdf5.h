// Simulated (parallel) HDF5 on the simulated disk.  Semantics in host/h5.cc.
#ifndef SIM_HDF5_H
#define SIM_HDF5_H
#include <mpi.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int64_t hid_t; typedef int herr_t; typedef unsigned long long hsize_t; typedef long long hssize_t; typedef int htri_t; typedef bool hbool_t; typedef unsigned long long haddr_t;
#define H5P_DEFAULT 0
#define H5E_DEFAULT 0
#define H5S_ALL 0
#define H5I_INVALID_HID (-1)
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_EXCL 0x0004u
#define H5F_ACC_CREAT 0x0010u
typedef enum { H5F_SCOPE_LOCAL = 0, H5F_SCOPE_GLOBAL = 1 } H5F_scope_t;
typedef enum { H5S_SELECT_SET = 0, H5S_SELECT_OR } H5S_seloper_t;
typedef enum { H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE } H5FD_mpio_xfer_t;
typedef struct { int dummy; } H5G_stat_t;
enum { H5P_FILE_ACCESS = 901, H5P_DATASET_XFER = 902, H5P_DATASET_CREATE = 903, H5P_FILE_CREATE = 904, H5P_GROUP_CREATE=905 };
enum { H5T_NATIVE_INT = 801, H5T_NATIVE_DOUBLE, H5T_NATIVE_LLONG, H5T_NATIVE_ULLONG, H5T_NATIVE_FLOAT, H5T_NATIVE_UINT, H5T_NATIVE_LONG, H5T_NATIVE_ULONG, H5T_NATIVE_CHAR, H5T_NATIVE_INT32, H5T_NATIVE_INT64, H5T_NATIVE_UINT64 };
typedef herr_t (*H5E_auto_t)(hid_t, void *);
herr_t H5open(void); herr_t H5close(void);
hid_t H5Pcreate(hid_t); herr_t H5Pclose(hid_t); herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info); herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t); herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t); herr_t H5Pset_coll_metadata_write(hid_t, hbool_t);
hid_t H5Fopen(const char *, unsigned, hid_t); hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t); herr_t H5Fclose(hid_t); herr_t H5Fflush(hid_t, H5F_scope_t); htri_t H5Fis_hdf5(const char *);
hid_t H5Gopen2(hid_t, const char *, hid_t); hid_t H5Gcreate2(hid_t, const char *, hid_t, hid_t, hid_t); herr_t H5Gclose(hid_t); herr_t H5Gget_objinfo(hid_t, const char *, hbool_t, H5G_stat_t *);
hid_t H5Dopen2(hid_t, const char *, hid_t); hid_t H5Dcreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t); herr_t H5Dclose(hid_t); hid_t H5Dget_space(hid_t);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *); herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *); herr_t H5Sclose(hid_t); herr_t H5Sselect_hyperslab(hid_t, H5S_seloper_t, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *); herr_t H5Sselect_none(hid_t); herr_t H5Sselect_all(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *); int H5Sget_simple_extent_ndims(hid_t); hssize_t H5Sget_simple_extent_npoints(hid_t); hssize_t H5Sget_select_npoints(hid_t);
hid_t H5Aopen(hid_t, const char *, hid_t); hid_t H5Acreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t); herr_t H5Aread(hid_t, hid_t, void *); herr_t H5Awrite(hid_t, hid_t, const void *); herr_t H5Aclose(hid_t); htri_t H5Aexists(hid_t, const char *); herr_t H5Adelete(hid_t, const char*);
htri_t H5Lexists(hid_t, const char *, hid_t); herr_t H5Ldelete(hid_t, const char*, hid_t); herr_t H5Oclose(hid_t); herr_t H5Eset_auto2(hid_t, H5E_auto_t, void *);
#define H5Gopen H5Gopen2
#define H5Gcreate H5Gcreate2
#define H5Dopen H5Dopen2
#define H5Dcreate H5Dcreate2
#define H5Acreate H5Acreate2
#define H5Eset_auto H5Eset_auto2
#ifdef __cplusplus
}
#endif
#endif
