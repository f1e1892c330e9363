#ifndef LC_mask_clear_range
#define LC_mask_clear_range
#endif
#ifndef LC_mask_set_range
#define LC_mask_set_range
#endif
#ifndef LC_mask_test_range
#define LC_mask_test_range
#endif
#ifndef LC_mask_scan_backwards
#define LC_mask_scan_backwards
#endif
#ifndef LC_mask_count_clear
#define LC_mask_count_clear
#endif
#ifndef LC_mask_subtract
#define LC_mask_subtract
#endif
#ifndef LC_mask_union
#define LC_mask_union
#endif
#ifndef LC_mask_intersect
#define LC_mask_intersect
#endif
#ifndef LC_mask_copy
#define LC_mask_copy
#endif
#ifndef LC_mask_iter
#define LC_mask_iter
#endif
