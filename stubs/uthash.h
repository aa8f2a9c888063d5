/* Verification stand-in for uthash: each macro becomes one call to an abstract
 * finite-map operation.  Tables are identified by (address of head, hh offset).
 * Trusted: uthash itself implements a finite map from byte-string keys. */
#ifndef UTHASH_H
#define UTHASH_H
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
typedef struct UT_hash_handle { void *vf_opaque; } UT_hash_handle;
void *__vf_hash_find(const void *headp, size_t hhoff, size_t elsize, const void *key, size_t keylen);
void __vf_hash_add(const void *headp, size_t hhoff, size_t elsize, const void *key, size_t keylen, void *elem);
void __vf_hash_del(const void *headp, size_t hhoff, size_t elsize, void *elem);
unsigned int __vf_hash_cnt(const void *headp, size_t hhoff, size_t elsize);
void *__vf_hash_first(const void *headp, size_t hhoff, size_t elsize);
void *__vf_hash_next(const void *headp, size_t hhoff, size_t elsize, const void *elem);
#define VF_HHOFF(hh,head) offsetof(__typeof__(*(head)), hh), sizeof(*(head))
#define HASH_FIND(hh,head,keyptr,keylen,out) \
	((out) = (__typeof__(out)) __vf_hash_find(&(head), VF_HHOFF(hh,head), (keyptr), (keylen)))
#define HASH_FIND_STR(head,findstr,out) HASH_FIND(hh,head,findstr,strlen(findstr),out)
#define HASH_ADD_KEYPTR(hh,head,keyptr,keylen,add) \
	__vf_hash_add(&(head), VF_HHOFF(hh,head), (keyptr), (keylen), (void *)(add))
#define HASH_DELETE(hh,head,del) __vf_hash_del(&(head), VF_HHOFF(hh,head), (void *)(del))
#define HASH_DEL(head,del) HASH_DELETE(hh,head,del)
#define HASH_CNT(hh,head) __vf_hash_cnt(&(head), VF_HHOFF(hh,head))
#define HASH_COUNT(head) HASH_CNT(hh,head)
#define HASH_ITER(hh,head,el,tmp) \
	for ((el) = (__typeof__(el)) __vf_hash_first(&(head), VF_HHOFF(hh,head)), \
	     (tmp) = (__typeof__(el)) ((el) ? __vf_hash_next(&(head), VF_HHOFF(hh,head), (el)) : NULL); \
	     (el) != NULL; \
	     (el) = (tmp), (tmp) = (__typeof__(el)) ((tmp) ? __vf_hash_next(&(head), VF_HHOFF(hh,head), (tmp)) : NULL))
#endif
