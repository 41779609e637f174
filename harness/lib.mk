# Builds libmetaresc from the current working tree of $(REPO)/src, out of tree, into $(OUT).
# usage: make -f lib.mk OUT=dir VARIANT=asan|plain|tsan
REPO ?= /repo
SRC  := $(REPO)/src
HERE := $(dir $(abspath $(lastword $(MAKEFILE_LIST))))
VARIANT ?= asan
CC := gcc
BASE := -std=gnu11 -g -w -Wno-error -fno-omit-frame-pointer -DHAVE_CONFIG_H -I$(OUT) -I$(HERE)include -I$(SRC) -I/usr/include/tirpc -I/usr/include/libxml2
CF_asan  := -O1 -fsanitize=address -fno-common
CF_plain := -O2
CF_sched := -O1 -fsanitize=thread -fno-common
CFLAGS := $(BASE) $(CF_$(VARIANT))
ALL  := $(wildcard $(SRC)/*.c)
CSRC := $(filter-out mr_dwarf.c,$(notdir $(ALL)))
YS   := $(notdir $(wildcard $(SRC)/*.y))
LS   := $(notdir $(wildcard $(SRC)/*.l))
TABC := $(YS:.y=.tab.c)
LEXC := $(LS:.l=.lex.c)
OBJS := $(addprefix $(OUT)/,$(CSRC:.c=.o) $(TABC:.c=.o) $(LEXC:.c=.o))
GENH := $(OUT)/mr_pp.h $(addprefix $(OUT)/,$(YS:.y=.tab.h) $(LS:.l=.lex.h))

$(OUT)/libmr.a: $(OBJS)
	rm -f $@ && ar rcs $@ $^

$(OUT)/mr_pp.h: $(SRC)/mr_pp.sh
	sh $< 256 > $@

$(OUT)/%.tab.h $(OUT)/%.tab.c &: $(SRC)/%.y
	cd $(OUT) && bison -Wnone -d -o $*.tab.c $< 2>$(OUT)/$*.bison.log || { cat $(OUT)/$*.bison.log; exit 1; }

$(OUT)/%.lex.h $(OUT)/%.lex.c &: $(SRC)/%.l
	cd $(OUT) && flex --header-file=$*.lex.h -o $*.lex.c $<

$(OUT)/mr_value.o: CFLAGS += -ffast-math

$(OUT)/%.o: $(SRC)/%.c $(GENH)
	$(CC) $(CFLAGS) -c $< -o $@
$(OUT)/%.tab.o: $(OUT)/%.tab.c $(GENH)
	$(CC) $(CFLAGS) -c $< -o $@
$(OUT)/%.lex.o: $(OUT)/%.lex.c $(GENH)
	$(CC) $(CFLAGS) -c $< -o $@
