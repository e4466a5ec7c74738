#include <check.h>
Suite *options_suite(void);
Suite *time_truth_suite(void);
Suite *nmea_gpths_suite(void);
int main(void) {
  SRunner *sr = srunner_create(options_suite());
  srunner_add_suite(sr, time_truth_suite());
  srunner_add_suite(sr, nmea_gpths_suite());
  srunner_run_all(sr, CK_NORMAL);
  return sr->failed != 0;
}
