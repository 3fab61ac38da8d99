// SRCS: emv_app.c emv_tlv.c iso8825_ber.c iso8859_simple.c
#include "emv_app.h"
#include <stdio.h>
/* f19/C11: two applications without priority indicator swap places */
int main(void) { struct emv_app_t a = {0}, b = {0}; struct emv_app_list_t l = EMV_APP_LIST_INIT;
 emv_app_list_push(&l, &a); emv_app_list_push(&l, &b); emv_app_list_sort_priority(&l);
 printf("%s\n", l.front == &a ? "kept" : "swapped"); return l.front != &a; }
