// Minimal stand-in for the header of the form compiler.
#pragma once
#include <stdbool.h>
#include <stdint.h>
#ifndef __cplusplus
#include <complex.h>
#endif
typedef struct ufcx_integral {
  const bool* enabled_coefficients;
  void* tabulate_tensor_float32;
  void* tabulate_tensor_float64;
  void* tabulate_tensor_complex64;
  void* tabulate_tensor_complex128;
  uint64_t coordinate_element_hash;
  uint8_t domain;
} ufcx_integral;
typedef struct ufcx_form {
  const char* signature;
  int rank;
  int num_coefficients;
  int num_constants;
  ufcx_integral** form_integrals;
  int* form_integral_ids;
  int* form_integral_offsets;
} ufcx_form;
