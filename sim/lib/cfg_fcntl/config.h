/* config.h of the simulated build */
#define HAVE_BYTESWAP_H
#define KVTREE_FILE_LOCK_USE_FCNTL
#define KVTREE_TEST_BASE "/dev/shm"
