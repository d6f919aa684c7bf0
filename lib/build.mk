# Out-of-tree build of /repo's current working tree plus the harnesses in /verif.
# usage: make -f lib/build.mk REPO=/repo OUT=/verif/build/x V=/verif all
REPO ?= /repo
V ?= /verif
OUT ?= $(V)/build/out
CXX := g++
OPT ?= -O2
FLAGS := $(OPT) -g0 -fPIC -w -msse2 -fopenmp -std=c++11 -DANSI -DUSING_SCONS -DLINUX \
  -DFFTW_THREADING -DUSE_OPENMP $(EXTRA) \
  -I$(REPO) -I$(REPO)/core -I$(REPO)/solvers -I$(REPO)/cdream -I$(REPO)/cdream/include \
  -I$(REPO)/function_objects -I$(REPO)/function_objects_1d -I$(REPO)/profile_fitting \
  -include cstring
LIBS := -lcfitsio -lfftw3 -lfftw3_threads -lgsl -lgslcblas -lnlopt -lm -ldl -lpthread
CC_ := $(if $(shell which ccache),ccache) $(CXX)

CORE := $(filter-out %_main.cpp,$(notdir $(wildcard $(REPO)/core/*.cpp)))
SOLV := $(notdir $(wildcard $(REPO)/solvers/*.cpp))
CDR := $(notdir $(wildcard $(REPO)/cdream/*.cpp) $(wildcard $(REPO)/cdream/*/*.cpp))
FUNC := $(notdir $(wildcard $(REPO)/function_objects/*.cpp))
LIBOBJ := $(CORE:%.cpp=$(OUT)/obj/core/%.o) $(SOLV:%.cpp=$(OUT)/obj/solvers/%.o) \
  $(CDR:%.cpp=$(OUT)/obj/cdream/%.o) $(FUNC:%.cpp=$(OUT)/obj/function_objects/%.o)
PROGS := imfit makeimage mcmc makemultimages multimfit
HARN := $(notdir $(wildcard $(V)/harness/*.cpp))

objs: $(LIBOBJ) $(PROGS:%=$(OUT)/obj/core/%_main.o) $(HARN:%.cpp=$(OUT)/obj/harness/%.o)
SOS := $(notdir $(wildcard $(V)/harness/*.c))
progs: $(PROGS:%=$(OUT)/bin/%) $(HARN:%.cpp=$(OUT)/bin/%) $(SOS:%.c=$(OUT)/bin/%.so)

$(OUT)/bin/%.so: $(V)/harness/%.c
	@mkdir -p $(@D)
	gcc -O2 -fPIC -shared -o $@ $< -ldl

$(OUT)/obj/harness/%.o: $(V)/harness/%.cpp
	@mkdir -p $(@D)
	$(CC_) $(FLAGS) -I$(V)/harness -c $< -o $@
$(OUT)/obj/%.o: $(REPO)/%.cpp
	@mkdir -p $(@D)
	$(CC_) $(FLAGS) -c $< -o $@
$(OUT)/lib.a: $(wildcard $(OUT)/obj/core/*.o $(OUT)/obj/solvers/*.o $(OUT)/obj/cdream/*.o $(OUT)/obj/function_objects/*.o)
	@rm -f $@
	ar rcs $@ $(filter-out %_main.o,$^)
$(OUT)/bin/%: $(OUT)/obj/core/%_main.o $(OUT)/lib.a
	@mkdir -p $(@D)
	$(CXX) $(FLAGS) -o $@ $< $(OUT)/lib.a $(LIBS)
$(OUT)/bin/%: $(OUT)/obj/harness/%.o $(OUT)/lib.a
	@mkdir -p $(@D)
	$(CXX) $(FLAGS) -o $@ $< $(OUT)/lib.a $(LIBS)
.SECONDARY:
