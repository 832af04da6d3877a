#include "common/base/Base.h"
#include "common/datatypes/Date.h"
#include "common/datatypes/HostAddr.h"
#include "common/datatypes/KeyValue.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
