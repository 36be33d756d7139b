// The part of the HDF5 interface that Schnek uses, as an assumed contract on the dependency: the harness defines the functions.
#ifndef VC_HDF5_H_
#define VC_HDF5_H_
#include <mpi.h>
#include <cassert>
typedef long hid_t; typedef int herr_t; typedef unsigned long hsize_t; typedef unsigned long size_t;
#define H5_HAVE_PARALLEL 1
#define H5Dopen_vers 2
#define H5Dcreate_vers 2
#define H5Acreate_vers 2
#define H5Dopen H5Dopen2
#define H5Dcreate H5Dcreate2
#define H5Acreate H5Acreate2
enum { H5F_ACC_RDONLY = 0, H5F_ACC_TRUNC = 2, H5S_SELECT_SET = 0, H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE = 1 };
#define H5P_DEFAULT 0L
#define H5S_ALL 0L
#define H5P_FILE_ACCESS 11L
#define H5P_DATASET_XFER 12L
#define H5T_NATIVE_INT 21L
#define H5T_NATIVE_FLOAT 22L
#define H5T_NATIVE_DOUBLE 23L
extern "C" {
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t); hid_t H5Fopen(const char *, unsigned, hid_t); herr_t H5Fclose(hid_t);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *); herr_t H5Sselect_hyperslab(hid_t, int, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *); herr_t H5Sclose(hid_t);
hid_t H5Dcreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t); hid_t H5Dopen2(hid_t, const char *, hid_t); hid_t H5Dget_space(hid_t); herr_t H5Dclose(hid_t);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *); herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
hid_t H5Acreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t); herr_t H5Awrite(hid_t, hid_t, const void *); herr_t H5Aclose(hid_t);
hid_t H5Pcreate(hid_t); herr_t H5Pclose(hid_t); herr_t H5Pset_sieve_buf_size(hid_t, size_t); herr_t H5Pset_alignment(hid_t, hsize_t, hsize_t); herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info); herr_t H5Pset_dxpl_mpio(hid_t, int);
}
#endif
