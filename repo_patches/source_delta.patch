From 870251504789a1e440f890d94ba2ad103491f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 001/113] fix: pack_t::cmp answers -1, 0 or 1 as documented

operator< and operator> test for exactly -1 and 1, but memcmp may answer any
number, so both were false for most buffers of equal length.
---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 40b735a..6b27a87 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -292,7 +292,10 @@ namespace classdesc
     /// greater than \a x
     virtual int cmp(const pack_t& x) const {
       if (m_size==x.m_size)
-        return memcmp(m_data,x.m_data,m_size);
+        {
+          int r=m_size? memcmp(m_data,x.m_data,m_size): 0;
+          return r<0? -1: r>0;
+        }
       else
         return m_size<x.m_size? -1: 1;
     }
-- 
2.43.0


From 0761cab81bec2f3d7ee82d94aab449367984ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 002/113] fix: unpacking a sequence no longer steps an
 invalidated iterator

The iterator was never dereferenced, but incrementing it after push_back had
invalidated it reads freed memory for deque.
---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 09fca3d..a08ab2a 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -121,7 +121,7 @@ namespace classdesc
     uint64 sz=0, i=0;
     b >> sz;
     resize(a,0);
-    for (typename T::iterator j=a.begin(); i<sz; ++i, ++j)
+    for (; i<sz; ++i)
       {
         typename T::value_type x;
         b >> x;
-- 
2.43.0


From ad077589a498ece181c536b56bb4ef4a6dff2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 003/113] fix: unpacking unordered_map and unordered_multimap
 restores the keys

Their value_type has a const key, which unpack skips, so every element came
back under a default key.
---
 pack_stl.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index a08ab2a..8ee1aff 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -38,6 +38,16 @@ namespace classdesc
   struct Value_Type<std::multimap<K,V,C,A> > 
   {typedef std::pair<K,V> value_type;};
 
+#if defined(__cplusplus) && __cplusplus>=201103L
+  template <class K, class V, class H, class P, class A>
+  struct Value_Type<std::unordered_map<K,V,H,P,A> >
+  {typedef std::pair<K,V> value_type;};
+
+  template <class K, class V, class H, class P, class A>
+  struct Value_Type<std::unordered_multimap<K,V,H,P,A> >
+  {typedef std::pair<K,V> value_type;};
+#endif
+
 
   /**
      Iterators are impossible to trap, as each compiler uses its own intrinsic
-- 
2.43.0


From 08f17b2c839876449aab4e837648623cb69f4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 004/113] fix: pack_t rejects reads whose size overflows the
 read position

A corrupt length near SIZE_MAX passed the bounds check and made unpackraw copy
it, eg when unpacking a std::string.
---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 6b27a87..8c2006d 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -203,7 +203,7 @@ namespace classdesc
     virtual void popoff(basic_type& x)
     {
       if (mode==buf)
-        if (m_pos+x.size>m_size)
+        if (m_pos>m_size || x.size>m_size-m_pos)
           throw pack_error("unexpected end of data");
         else
           memcpy(x.val,m_data+m_pos,x.size);
@@ -270,7 +270,7 @@ namespace classdesc
     {
       if (mode==buf)
         {
-          if (s+m_pos>m_size)
+          if (m_pos>m_size || s>m_size-m_pos)
             throw pack_error("premature end of buffered data");
           memcpy(x,m_data+m_pos,s);
         }
-- 
2.43.0


From 21b3f31ebc6904b17e71fcc3f6caeac42d87c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 005/113] fix: pack_t::resize(0) empties the buffer instead of
 throwing

It freed the data, threw bad_alloc and left the old size behind.
---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 8c2006d..e2d32ba 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -182,7 +182,7 @@ namespace classdesc
      */
     void resize(size_t s) {
       realloc(s);
-      if (!m_data) throw std::bad_alloc();
+      if (!m_data && s) throw std::bad_alloc();
       m_size=s;
     }
      
-- 
2.43.0


From d299cabdbfdd939919ae6021b335d6a2dd467862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 006/113] fix: moving a pack_t leaves both buffers initialised

The move constructor swapped uninitialised members into its argument, and
neither it nor swap carried over recur_max.
---
 pack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index e2d32ba..1983a99 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -152,6 +152,7 @@ namespace classdesc
       std::swap(m_size,other.m_size);
       std::swap(m_pos,other.m_pos);
       std::swap(ptr_flag,other.ptr_flag);
+      std::swap(recur_max,other.recur_max);
       std::swap(alloced,other.alloced);
     }
     enum mode_t {buf, readf, writef};
@@ -230,7 +231,7 @@ namespace classdesc
     virtual ~pack_t() {realloc(0); if (f) fclose(f);}
 
 #if __cplusplus >= 201103L
-    pack_t(pack_t&& x): f(nullptr), m_data(nullptr) {swap_base(x);}
+    pack_t(pack_t&& x): pack_t() {swap_base(x);}
     pack_t& operator=(pack_t&& x) {swap_base(x); return *this;}
 #endif
 
-- 
2.43.0


From 9fe6d5a808427d0e1d10d92a7b57989483502b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 007/113] fix: xdr_pack works beyond its first chunk, and for
 seeks and swaps

The encode and decode streams were windows of BUFCHUNK bytes onto the buffer:
data beyond 1024 bytes could not be unpacked, items larger than a chunk could
not be packed, seeki lost its place across chunks, reseti kept the old size, a
new buffer claimed 1024 bytes of data, appending moved the read position, and
swap exchanged the wrong streams. Items in memory are now encoded at the end
of the buffer and decoded at the read position, and the streams serve files.
---
 pack_base.h |   6 +--
 xdr_pack.cc | 145 ++++++++++++++++++++++++++++++----------------------
 2 files changed, 87 insertions(+), 64 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 1983a99..bd7227b 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -332,8 +332,7 @@ namespace classdesc
   */
   class xdr_pack: public pack_t
   {
-    size_t asize;
-    XDR *input, *output;
+    XDR *input, *output; ///< used for files only
   public:
     xdr_pack(size_t sz=BUFCHUNK);
     xdr_pack(const char *, const char* rw);
@@ -355,9 +354,8 @@ namespace classdesc
       xdr_pack* xdr_other=dynamic_cast<xdr_pack*>(&other);
       if (!xdr_other) throw pack_error("cannot swap differing types");
       swap_base(other);
-      std::swap(asize,xdr_other->asize);
       std::swap(input,xdr_other->input);
-      std::swap(input,xdr_other->output);
+      std::swap(output,xdr_other->output);
     }
   };
   template <> inline string typeName<xdr_pack>() {return "classdesc::xdr_pack";}
diff --git a/xdr_pack.cc b/xdr_pack.cc
index ddd87cc..e9e9ffb 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -147,24 +147,21 @@ namespace classdesc
   xdr_filter XDR_filter(const long double& x)        
   {return NULL;}    
 
-  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0)
-  {
-    input=new XDR; output=new XDR;
-    xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
-    xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
-  }
+  /* Buffers in memory are encoded and decoded one item at a time, at the
+     current end (m_size) and read position (m_pos) of the buffer, so that
+     data can move whenever the buffer is reallocated. The input and output
+     streams are only needed for files. */
+  xdr_pack::xdr_pack(size_t sz): pack_t(0), input(NULL), output(NULL) {}
 
-  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0)
+  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), input(NULL), output(NULL)
   {
     if (mode==writef)
       {
         input=new XDR; 
-        output=NULL;
         xdrstdio_create(input,f,XDR_ENCODE);
       }
     else
       {
-        input=NULL;
         output=new XDR;
         xdrstdio_create(output,f,XDR_DECODE);    
       }
@@ -172,103 +169,131 @@ namespace classdesc
 
   xdr_pack::~xdr_pack() 
   {
-    if (output && (mode==buf || mode==readf))
+    if (output)
       {
         xdr_destroy(output); 
         delete output;
       }
-    if (input && (mode==buf || mode==writef))
+    if (input)
       {
         xdr_destroy(input); 
         delete input;  
       }
   }
 
+  namespace
+  {
+    // XDR rounds up the size of opaque data
+    size_t padded(size_t sz) {return (sz+BYTES_PER_XDR_UNIT-1)/BYTES_PER_XDR_UNIT*BYTES_PER_XDR_UNIT;}
+    const size_t maxItem=16;
+  }
+
   void  xdr_pack::append(const basic_type& x) 
     {
-      if (mode==buf && BUFCHUNK-xdr_getpos(input)<8)
-	{
-	  asize += xdr_getpos(input);
-	  realloc(asize+BUFCHUNK);
-	  if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
-	  xdr_destroy(input); xdr_destroy(output);
-	  xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	  xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-	}
-      if(!x.filter || !x.filter(input,x.val)) 
-	throw pack_error("Error encoding XDR stream");
-      m_size=asize+xdr_getpos(input);
+      if (mode==buf)
+        {
+          long long item[maxItem/sizeof(long long)];
+          XDR stream;
+          xdrmem_create(&stream,(const caddr_t)item,sizeof(item),XDR_ENCODE);
+          if (!x.filter || !x.filter(&stream,x.val))
+            throw pack_error("Error encoding XDR stream");
+          size_t sz=xdr_getpos(&stream);
+          xdr_destroy(&stream);
+          realloc(m_size+sz);
+          if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
+          memcpy(m_data+m_size,item,sz);
+          m_size+=sz;
+        }
+      else
+        {
+          if(!x.filter || !x.filter(input,x.val)) 
+            throw pack_error("Error encoding XDR stream");
+          m_size=xdr_getpos(input);
+        }
     }
   
   void xdr_pack::popoff(basic_type& x)
   { 
-    if (!x.filter || !x.filter(output,x.val)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
-  }
-
-  xdr_pack& xdr_pack::reseti() { 
-    if (asize==0) 
-      xdr_setpos(input,0);
+    if (mode==buf)
+      {
+        size_t avail=m_pos<m_size? m_size-m_pos: 0;
+        XDR stream;
+        xdrmem_create(&stream,(const caddr_t)data()+m_pos,avail<maxItem? avail: maxItem,XDR_DECODE);
+        if (!x.filter || !x.filter(&stream,x.val)) 
+          throw pack_error("Error decoding XDR stream");
+        m_pos+=xdr_getpos(&stream);
+        xdr_destroy(&stream);
+      }
     else
       {
-	m_size=0; asize=0; xdr_destroy(input); 
-	xdrmem_create(input,(const caddr_t)data(),BUFCHUNK,XDR_ENCODE);
+        if (!x.filter || !x.filter(output,x.val)) 
+          throw pack_error("Error decoding XDR stream");
+        m_pos=xdr_getpos(output);
       }
+  }
+
+  xdr_pack& xdr_pack::reseti() { 
+    if (input) xdr_setpos(input,0);
+    m_size=0;
     return *this;
   }
 
   xdr_pack& xdr_pack::reseto() 
   { 
-    xdr_setpos(output,0); 
+    if (output) xdr_setpos(output,0); 
+    m_pos=0;
     return *this; 
   }
 
-  // assume that sizeof(size_t)==sizeof(long): true for most things
   xdr_pack& xdr_pack::seeki(long offs)
   { 
     assert(offs<=0);
-    long seekpos=xdr_getpos(input)+offs;
-    if (mode==buf && seekpos<0) 
-      {
-	seekpos+=asize;  /* work in absolute stream units, not relative to 
-			    current segment */
-	asize=seekpos/BUFCHUNK; seekpos%=BUFCHUNK;
-	xdr_destroy(input);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-      }
-    xdr_setpos(input,seekpos);
-    m_size=asize+seekpos;
+    m_size+=offs;
+    if (input) xdr_setpos(input,m_size);
     return *this;
   }  
 
   xdr_pack& xdr_pack::seeko(long offs) 
   {
-    xdr_setpos(output,xdr_getpos(output)+offs);
+    m_pos+=offs;
+    if (output) xdr_setpos(output,m_pos);
     return *this;
   }
 
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
-    if (mode==buf && BUFCHUNK-xdr_getpos(input)<sz)
+    if (mode==buf)
+      {
+        if (!sz) return;
+        realloc(m_size+padded(sz));
+        if (data()==NULL) throw pack_error("Error encoding XDR stream");
+        memcpy(m_data+m_size,x,sz);
+        memset(m_data+m_size+sz,0,padded(sz)-sz);
+        m_size+=padded(sz);
+      }
+    else
       {
-	asize += xdr_getpos(input);
-	realloc(asize+BUFCHUNK);
-	if (data()==NULL) throw pack_error("Error encoding XDR stream");
-	xdr_destroy(input); xdr_destroy(output);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
+        if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
+          throw pack_error("Error encoding XDR stream");
+        m_size=xdr_getpos(input);
       }
-    if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_size=asize+xdr_getpos(input);
   }
 
   void xdr_pack::unpackraw(char *x, size_t sz) 
   {
-    if (!xdr_opaque(output,x,sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
+    if (mode==buf)
+      {
+        if (m_pos>m_size || sz>m_size-m_pos || padded(sz)>m_size-m_pos)
+          throw pack_error("premature end of XDR data");
+        if (sz) memcpy(x,m_data+m_pos,sz);
+        m_pos+=padded(sz);
+      }
+    else
+      {
+        if (!xdr_opaque(output,x,sz)) 
+          throw pack_error("Error decoding XDR stream");
+        m_pos=xdr_getpos(output);
+      }
   }
 
 }
-- 
2.43.0


From f1dcaf7b8bfcb85dac18c8467fa125c8daf0395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 008/113] fix: xdr_pack round-trips negative long, and refuses
 long out of XDR range

libtirpc's xdr_long neither sign extends nor checks the range on 64 bit
platforms: -1 came back as 4294967295, and 1L<<40 as 0.
---
 xdr_pack.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xdr_pack.cc b/xdr_pack.cc
index e9e9ffb..c846453 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -72,6 +72,29 @@ namespace classdesc
 {
   struct XDR: public ::XDR {};
 
+  namespace
+  {
+    /* XDR's long is 32 bits. Not all XDR libraries sign extend it, or refuse
+       values out of range, on platforms where long is larger */
+    bool_t xdrLong(XDR* stream, long* x)
+    {
+      int i=int(*x);
+      if (stream->x_op==XDR_ENCODE && i!=*x) return FALSE;
+      if (!xdr_int(stream,&i)) return FALSE;
+      *x=i;
+      return TRUE;
+    }
+
+    bool_t xdrULong(XDR* stream, unsigned long* x)
+    {
+      unsigned i=unsigned(*x);
+      if (stream->x_op==XDR_ENCODE && i!=*x) return FALSE;
+      if (!xdr_u_int(stream,&i)) return FALSE;
+      *x=i;
+      return TRUE;
+    }
+  }
+
 
   template <>
   xdr_filter XDR_filter(const bool& x)               
@@ -111,11 +134,11 @@ namespace classdesc
 
   template <>
   xdr_filter XDR_filter(const long int& x)           
-  {return (xdr_filter) xdr_long;}
+  {return (xdr_filter) xdrLong;}
 
   template <>
   xdr_filter XDR_filter(const unsigned long int& x)  
-  {return (xdr_filter) xdr_u_long;}
+  {return (xdr_filter) xdrULong;}
 
     /* long long is an extension to ANSI C++ that describes a 64 bit
        integer on all our supported compilers. XDR's terminolgy for
-- 
2.43.0


From dbe17d6380c26b2d8f4dd4e782be8c29c6544864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 009/113] fix: pack_graph restarts referred to dead
 temporaries, and state leaked out of an abandoned traversal

At the recursion limit unpack_graph kept the address of its argument,
which for an element of a container is a temporary. An exception left
the recursion level and node map set for the next traversal. A limit of
1 recursed without end, and a null tree pointer left its target alone.
---
 pack_graph.h | 118 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 45 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 0e07f8a..04c5b35 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -53,6 +53,8 @@ namespace classdesc
         arg=static_cast<T*>(targ.alloced.back().data());
         unpack(targ,desc,*arg);
       }
+    else
+      arg=NULL;
   }
 
   /*
@@ -80,42 +82,59 @@ namespace classdesc
     }
   };
 
+  /** A node met at the recursion limit has just its ID streamed at that
+      point, and is kept on the restart list to have its contents
+      streamed once the recursion has unwound. Nothing refers to the
+      location of \a arg, which might be a temporary. */
   template <class T>
   inline void pack_graph(pack_t& buf, T& arg)
   {
-    static std::map<T,int> graph_map;
-    static std::vector<T*> restart;
+    typedef typename remove_const<T>::type Node;
+    static std::map<Node,int> graph_map;
+    static std::vector<Node> restart;
     static unsigned recur_level=0;
     int nought=0;
 
-    if (recur_level==0)
-      pack(buf,string(),buf.recur_max);
-    recur_level++;
-
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else if (!arg)   //reference is invalid 
-      pack(buf,string(),nought);
-    else if (graph_map.count(arg)==0)
-      {  
-        int ID=graph_map.size()+1;
-        graph_map[arg]=ID;
-        pack(buf,string(),ID);
-        pack(buf,string(),*arg);
-      }
-    else
-      pack(buf,string(),graph_map[arg]);
-    
-    recur_level--;
-    if (recur_level==0)   //process restarts
+    try
       {
-        while (restart.size())
+        if (recur_level==0)
+          pack(buf,string(),buf.recur_max);
+        recur_level++;
+
+        if (!arg)   //reference is invalid 
+          pack(buf,string(),nought);
+        else if (graph_map.count(arg)==0)
+          {  
+            int ID=graph_map.size()+1;
+            graph_map[arg]=ID;
+            pack(buf,string(),ID);
+            if (buf.recur_max && recur_level>=buf.recur_max)
+              restart.push_back(arg); //save node for restart
+            else
+              pack(buf,string(),*arg);
+          }
+        else
+          pack(buf,string(),graph_map[arg]);
+    
+        if (recur_level==1)   //process restarts
           {
-            T& aa=*restart.back(); //we need to pop_back() before packing
-            restart.pop_back();    //in case further restarts are needed
-            pack_graph(buf,aa);
+            while (restart.size())
+              {
+                Node aa=restart.back();   //we need to pop_back() before packing
+                restart.pop_back();    //in case further restarts are needed
+                pack(buf,string(),*aa);
+              }
+            graph_map.clear();
           }
+        recur_level--;
+      }
+    catch (...)
+      {
+        // leave nothing of an abandoned traversal behind
+        recur_level=0;
+        restart.clear();
         graph_map.clear();
+        throw;
       }
   }
 
@@ -123,19 +142,17 @@ namespace classdesc
   void unpack_graph(pack_t& buf, T& arg)
   {
     static std::map<int,T> graph_map;
-    static std::vector<T*> restart;
+    static std::vector<T> restart;
     static unsigned recur_level=0;
     int myid;
     Alloc<T> alloc;
     
-    if (recur_level==0)
-      unpack(buf,string(),buf.recur_max);
-    recur_level++;
-
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else
+    try
       {
+        if (recur_level==0)
+          unpack(buf,string(),buf.recur_max);
+        recur_level++;
+
         unpack(buf,string(),myid);
         if (myid==0) 
           arg=T();                //reset arg to invalid state
@@ -144,23 +161,34 @@ namespace classdesc
         else
           {
             alloc(buf,arg);
-            graph_map[myid]=arg;
-            unpack(buf,string(),*arg);
+            T node=arg;
+            graph_map[myid]=node;
+            if (buf.recur_max && recur_level>=buf.recur_max)
+              restart.push_back(node); //save node for restart
+            else
+              unpack(buf,string(),*node);
           }
 
-      }
-    recur_level--;
-    if (recur_level==0)   //process restarts
-      {
-        while (restart.size())
+        if (recur_level==1)   //process restarts
           {
-            T& aa=*restart.back(); //we need to pop_back() before packing
-            restart.pop_back();    //in case further restarts are needed
-            unpack_graph(buf,aa);
+            while (restart.size())
+              {
+                T aa=restart.back();   //we need to pop_back() before unpacking
+                restart.pop_back();    //in case further restarts are needed
+                unpack(buf,string(),*aa);
+              }
+            graph_map.clear();
           }
+        recur_level--;
+      }
+    catch (...)
+      {
+        // leave nothing of an abandoned traversal behind
+        recur_level=0;
+        restart.clear();
         graph_map.clear();
+        throw;
       }
-
   }
 
   ///serialise a graph structure
-- 
2.43.0


From d76d01b9f9118a8f6a983765f2b4a0da52dc1fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 010/113] fix: assigning a PtrStoreRef leaked the object
 previously referred to

Erasing an element of pack_t::alloced, documented to destroy the object,
destroyed the wrong reference count instead.
---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index bd7227b..08b7f9e 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -127,7 +127,7 @@ namespace classdesc
     void* data() {return d->data();}
     PtrStoreRef(PtrStoreBase *d=NULL): d(d) {}
     PtrStoreRef(const PtrStoreRef& x): d(x.d) {d && d->cnt++;}
-    PtrStoreRef& operator=(const PtrStoreRef& x) {d=x.d; d && d->cnt++; return *this;}
+    PtrStoreRef& operator=(const PtrStoreRef& x) {PtrStoreRef tmp(x); std::swap(d,tmp.d); return *this;}
     ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}
   };
 
-- 
2.43.0


From 357510517b697665e234e60f6390b699025d15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 011/113] fix: assigning a ref from inside its own target used
 the target after destroying it

r=*r, and r=r->next when r holds the last reference.
---
 ref.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ref.h b/ref.h
index 662b1b3..de9ab07 100644
--- a/ref.h
+++ b/ref.h
@@ -48,8 +48,8 @@ namespace classdesc
     ref(): item(NULL) {}  /* unitialised refs don't consume space */
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
-    ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    ref& operator=(const T& x) {refdec(); newitem(x); return *this;}  
+    ref& operator=(const ref& x)  {ref tmp(x); swap(tmp); return *this;}
+    ref& operator=(const T& x) {ref tmp(x); swap(tmp); return *this;}
     ~ref() {refdec();}
     /// dereference - creates default object if null
     T* operator->() {if (!item) newitem(); return (T*)item;}
@@ -68,7 +68,7 @@ namespace classdesc
     /// dereference - throws in debug mode if null
     const T& operator*() const {assert(item); return *(T*)item;}
     /// make reference null
-    void nullify() { refdec(); item=NULL;}
+    void nullify() {ref tmp; swap(tmp);}
     /// true if reference is null
     bool nullref() const { return item==NULL;} 
     /// equivalent to nullref
-- 
2.43.0


From 1a65deb6adaf1b97e8a94f34df5e313942cb9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 012/113] fix: XML character data, attribute values, comments
 and CDATA were mis-tokenised

---
 xml_unpack_base.h | 126 +++++++++++++++++++++++++++++++---------------
 1 file changed, 86 insertions(+), 40 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index e0fe1c1..8e6ff8a 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -100,13 +100,16 @@ namespace classdesc
       return r;
     }
     
-    void gobble_comment();
-    void gobble_whitespace() {
-      char c;
-      bool notEof=get(c); 
-      while (notEof && std::isspace(c)) notEof=get(c);
-      if (notEof) unget(c);
+    /// skip input up to and including \a end
+    void gobbleUntil(const std::string& end) {
+      std::string last;
+      while (last!=end)
+        {
+          if (last.size()==end.size()) last.erase(0,1);
+          last+=getNoEOF();
+        }
     }
+    void gobbleDeclaration();
     char parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
@@ -117,6 +120,11 @@ namespace classdesc
       if (tok.empty()) throw xml_pack_error("XML token expected");
       else return tok;
     }
+    /// read character data up to the next tag, appending it to \a data.
+    /// returns "<" for a start tag, and "</" for an end tag
+    std::string characterData(std::string& data);
+    /// read the value of an attribute
+    std::string attributeValue();
     /// handle tags starting with ! - comments and CDATAs
     std::string processBang(std::string& tok,char c);
     /// handle XML tags ('<' case)
@@ -124,23 +132,31 @@ namespace classdesc
   };
 
   template <class Stream> 
-  void XMLtoken<Stream>::gobble_comment()
+  void XMLtoken<Stream>::gobbleDeclaration()
   {
     int level=1;
-    bool inString=false;
-    char c;
     while (level)
       {
-        c=getNoEOF();
-        if (c=='"') inString=!inString;
-        if (inString) continue;
+        char c=getNoEOF();
         switch(c)
           {
-          case '<': level++; break;
+          case '"': case '\'':
+            gobbleUntil(std::string(1,c)); 
+            break;
+          case '<': 
+            if ((c=getNoEOF())=='?')
+              gobbleUntil("?>");
+            else if (c=='!' && (c=getNoEOF())=='-' && (c=getNoEOF())=='-')
+              gobbleUntil("-->");
+            else
+              {
+                level++;
+                unget(c);
+              }
+            break;
           case '>': level--; break;
           }
       }
-    gobble_whitespace();
   }
   
   template <class Stream> 
@@ -209,28 +225,22 @@ namespace classdesc
       {
         if (!get(c) || c=='>') break; // in case of EOF, or end of tag
         leadin+=c;
+        if (leadin=="--")
+          {
+            gobbleUntil("-->");
+            return "";
+          }
       }
     if (leadin=="[CDATA[")
       { // CDATA processing, add CDATA contents verbatim
-        leadin.clear();
-        while ((c=getNoEOF()))
-          {
-            if (c==']')
-              if (leadin=="]")
-                leadin+=c;
-              else
-                leadin=c;
-            else if (c=='>' && leadin=="]]")
-              return tok;
-            else
-              {
-                tok+=leadin+c;
-                leadin.clear();
-              }
-          }
+        std::string data;
+        while ((c=getNoEOF())!='>' || data.length()<2 || data.compare(data.length()-2,2,"]]")!=0)
+          data+=c;
+        tok.append(data,0,data.length()-2);
+        return tok;
       }
     else if (c!='>')
-      gobble_comment();
+      gobbleDeclaration();
     return "";
   }
   
@@ -241,8 +251,8 @@ namespace classdesc
     switch (c)
       {
       case '!': return processBang(tok,c);
-      case '?': //we have a comment or XML declaration, which we ignore, except for CDATA
-        gobble_comment(); return "";
+      case '?': //we have a processing instruction or XML declaration, which we ignore
+        gobbleUntil("?>"); return "";
       case '/': //we have begin end tag token
         return  retval('/',tok);
       default:
@@ -310,6 +320,46 @@ namespace classdesc
       throw xml_pack_error("XML file truncated?");
   }
   
+  template <class Stream> 
+  std::string XMLtoken<Stream>::characterData(std::string& data)
+  {
+    for (;;)
+      {
+        char c=getNoEOF();
+        if (c=='&')
+          data+=parse_entity();
+        else if (c!='<')
+          data+=c;
+        else
+          switch (c=getNoEOF())
+            {
+            case '!': processBang(data,c); break;
+            case '?': gobbleUntil("?>"); break;
+            case '/': return "</";
+            default: unget(c); return "<";
+            }
+      }
+  }
+
+  template <class Stream> 
+  std::string XMLtoken<Stream>::attributeValue()
+  {
+    std::string value;
+    char c, term;
+    while (std::isspace(term=getNoEOF()));
+    if (term!='"' && term!='\'')
+      {
+        unget(term);
+        return tokenNoEOF();
+      }
+    while ((c=getNoEOF())!=term)
+      if (c=='&')
+        value+=parse_entity();
+      else
+        value+=c;
+    return value;
+  }
+  
   /**
      XML deserialisation object
   */
@@ -456,8 +506,7 @@ namespace classdesc
     std::string tok; 
     while (isspace(tok=stream.tokenNoEOF()));
     if (tok!="=") throw xml_pack_error("ill-formed attribute");
-    while (isspace(tok=stream.tokenNoEOF()));
-    contentMap[scope]=tok;
+    contentMap[scope]=stream.attributeValue();
   }
 
   /**
@@ -492,11 +541,8 @@ namespace classdesc
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
-    for (tok=stream.tokenNoEOF(); tok!="</"; tok=stream.tokenNoEOF())
-      if (tok=="<")
-        parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
-      else 
-        content+=tok;
+    while (stream.characterData(content)=="<")
+      parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
 
     if (content.size())
       contentMap[scope_idx]=content; //override content (to handle masked private members)
-- 
2.43.0


From 6d85f7e7bbf72aa5adec6dd6ed337a9dc0d3e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 013/113] fix: xml_unpack can read data from attributes

---
 xml_unpack_base.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 8e6ff8a..0fb83eb 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -372,9 +372,18 @@ namespace classdesc
     ContentMap contentMap;
     std::map<std::string,unsigned> tokenCount;
 
+    // find contents of key. Attributes are stored without an element index
+    ContentMap::const_iterator find(const std::string& key) const
+    {
+      ContentMap::const_iterator it=contentMap.find(key);
+      if (it==contentMap.end() && key.length()>2 && key.compare(key.length()-2,2,"#0")==0)
+        it=contentMap.find(key.substr(0,key.length()-2));
+      return it;
+    }
+
     void checkKey(const std::string& key)
     {
-      if (missingException && !contentMap.count(key)) 
+      if (missingException && find(key)==contentMap.end()) 
         throw xml_pack_error(key+" is missing in XML data stream");
     }
 
@@ -459,13 +468,13 @@ namespace classdesc
     ///simple data type deserialisation
     template <class T> void unpack(std::string key, T& var) {
       key=addHashNoughts(key); checkKey(key); 
-      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
+      ContentMap::const_iterator it=find(key);
       if (it != contentMap.end()) stoT(it->second, var);
     }
     // specialisation to handle boolean values
     void unpack(std::string key, bool& var) {
       key=addHashNoughts(key); checkKey(key);
-      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
+      ContentMap::const_iterator it=find(key);
       if (it != contentMap.end())
         {
           std::string val=it->second;
@@ -479,7 +488,7 @@ namespace classdesc
     /// string deserialisation 
     void unpack(std::string key, std::string& var) {
       key=addHashNoughts(key); checkKey(key);  
-      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
+      ContentMap::const_iterator it=find(key);
       if (it != contentMap.end())
         var=it->second; 
     }
-- 
2.43.0


From d3bbb131a55cc06f17a24731186713cc7038ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 014/113] fix: unpacking an empty XML element clears the string

---
 xml_unpack_base.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 0fb83eb..c94da00 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -381,9 +381,17 @@ namespace classdesc
       return it;
     }
 
+    // true if an element \a key (which must be indexed) was read, even if it was empty
+    bool present(const std::string& key) const
+    {
+      std::string::size_type hash=key.rfind('#');
+      std::map<std::string,unsigned>::const_iterator it=tokenCount.find(key.substr(0,hash));
+      return it!=tokenCount.end() && std::strtoul(key.c_str()+hash+1,NULL,10) < it->second;
+    }
+
     void checkKey(const std::string& key)
     {
-      if (missingException && find(key)==contentMap.end()) 
+      if (missingException && find(key)==contentMap.end() && !present(key)) 
         throw xml_pack_error(key+" is missing in XML data stream");
     }
 
@@ -491,6 +499,8 @@ namespace classdesc
       ContentMap::const_iterator it=find(key);
       if (it != contentMap.end())
         var=it->second; 
+      else if (present(key))
+        var.clear();
     }
     void unpack(std::string key, CDATA& a)
     {unpack(key,static_cast<std::string&>(a));}
-- 
2.43.0


From 8f5718a4a997ca760138e3008f890efd76403b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 015/113] fix: enums and containers absent from XML data keep
 their values

---
 xml_unpack_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index c94da00..d274f2d 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -616,6 +616,7 @@ namespace classdesc
 {
   std::string tmp;
   xml_unpack(x,d,tmp);
+  if (tmp.empty()) return; // leave enum unchanged if not present
   // remove extraneous white space
   int (*isspace)(int)=std::isspace;
   std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
@@ -633,6 +634,7 @@ namespace classdesc
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
 
+    if (!d.empty() && !x.exists(d)) return; // not present in XML data
     size_t cnt=x.count(d+"."+e);
     resize(arg,0); // clear container if resizable
     resize(arg,cnt);
@@ -651,6 +653,7 @@ namespace classdesc
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
 
+    if (!d.empty() && !x.exists(d)) return; // not present in XML data
     arg.clear();
     string prefix=d.empty()? e: d+"."+e;
     for (size_t i=0; i<x.count(prefix); ++i) 
-- 
2.43.0


From 3e05739804783dee8252f04fec549e7bf5118af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 016/113] fix: XML output and input of non-ASCII characters

---
 xml_pack_base.h   |  3 ++-
 xml_unpack_base.h | 44 +++++++++++++++++++++-----------------------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index eeb7828..008f1a1 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -37,7 +37,8 @@ namespace classdesc
       case '\'': return "&apos;";
       case '"': return "&quot;";
       }
-    if (!isgraph(c))
+    // bytes of multibyte characters are passed through
+    if (static_cast<unsigned char>(c)<0x80 && !isgraph(c))
       {
         std::ostringstream s;
         s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(c)<<";";
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index d274f2d..5c24760 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -110,7 +110,8 @@ namespace classdesc
         }
     }
     void gobbleDeclaration();
-    char parse_entity();
+    /// parse entity reference, returning its UTF-8 encoding
+    std::string parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
     XMLtoken(Stream& i): i(i), nexttok('\0') {}
@@ -160,36 +161,33 @@ namespace classdesc
   }
   
   template <class Stream> 
-  char XMLtoken<Stream>::parse_entity()
+  std::string XMLtoken<Stream>::parse_entity()
   {
     std::string name;
     char c;
     for (c=getNoEOF(); c!=';'; c=getNoEOF())
       name+=c;
-    if (name=="amp") return '&';
-    if (name=="lt") return '<';
-    if (name=="gt") return '>';
-    if (name=="quot") return '"';
-    if (name=="apos") return '\'';
+    if (name=="amp") return "&";
+    if (name=="lt") return "<";
+    if (name=="gt") return ">";
+    if (name=="quot") return "\"";
+    if (name=="apos") return "'";
     const char* cname=name.c_str();
     if (cname[0]=='#') //character code supplied
       {
-        if (cname[1]=='x') //is hex
-          {
-            //TODO - should we be doing this all in wide chars?
-            long r=std::strtol(cname+2,NULL,16);
-            if (r>std::numeric_limits<char>::max() || r<std::numeric_limits<char>::min())
-              throw xml_pack_error("XML numeric character reference out of range");
-            return char(r);
-          }
-        else
-          {
-            //TODO - should we be doing this all in wide chars?
-            long r=std::strtol(cname+1,NULL,10);
-            if (r>std::numeric_limits<char>::max() || r<std::numeric_limits<char>::min())
-              throw xml_pack_error("XML numeric character reference out of range");
-            return char(r);
-          }
+        long r=cname[1]=='x'? //is hex
+          std::strtol(cname+2,NULL,16): std::strtol(cname+1,NULL,10);
+        if (r<0 || r>0x10FFFF)
+          throw xml_pack_error("XML numeric character reference out of range");
+        if (r<0x80)
+          return std::string(1,char(r));
+        // encode as UTF-8
+        std::string utf8;
+        int shift=r<0x800? 6: r<0x10000? 12: 18;
+        utf8+=char((shift==6? 0xC0: shift==12? 0xE0: 0xF0) | (r>>shift));
+        while ((shift-=6)>=0)
+          utf8+=char(0x80 | ((r>>shift)&0x3F));
+        return utf8;
       }
     // not sure what to do about user defined entities - throw, or issue a warning
     throw xml_pack_error("Unidentified entity encountered");
-- 
2.43.0


From 28db616dd1a783d159f7d2648ae4429039f399d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 017/113] fix: characters of all types round trip through XML

---
 xml_pack_base.h   | 6 ++++++
 xml_unpack_base.h | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 008f1a1..0eccd98 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -178,6 +178,12 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, char& a)
   {x.pack(d,classdesc::xml_quote(a));}
 
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, signed char& a)
+  {x.pack(d,classdesc::xml_quote(a));}
+
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
+  {x.pack(d,classdesc::xml_quote(a));}
+
   /**
      handle enums
   */
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 5c24760..ee84327 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -470,6 +470,15 @@ namespace classdesc
 #endif
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
+    // characters may be white space
+    template <class T> void stochar(const std::string& s, T& x)
+    {
+      std::istringstream is(s);
+      if (!(is>>x) && !s.empty()) x=s[0];
+    }
+    void stoT(const std::string& s, char& x) {stochar(s,x);}
+    void stoT(const std::string& s, signed char& x) {stochar(s,x);}
+    void stoT(const std::string& s, unsigned char& x) {stochar(s,x);}
     
     ///simple data type deserialisation
     template <class T> void unpack(std::string key, T& var) {
-- 
2.43.0


From c941500cbe7118983a2fc7c86f00cf61d30242a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 018/113] fix: XML element names for arrays of template types
 are well formed

---
 xml_pack_base.h   | 1 +
 xml_unpack_base.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 0eccd98..36e8675 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -223,6 +223,7 @@ namespace classdesc
 
     // element name is given by the type name
     string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index ee84327..c8572b9 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -610,6 +610,7 @@ namespace classdesc
     va_end(ap);
 
     classdesc::string eName=classdesc::typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-- 
2.43.0


From e4551215c313af3e5763c5e0c107e378bb97173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 019/113] fix: CDATA containing ]]> or pretty printed is
 written faithfully

---
 xml_pack_base.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 36e8675..0e1c625 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -48,7 +48,14 @@ namespace classdesc
   }
 
   inline std::ostream& operator<<(std::ostream& o, const CDATA& x)
-  {return o<<"<![CDATA["<<static_cast<const std::string&>(x)<<"]]>";}
+  {
+    o<<"<![CDATA[";
+    // a section cannot contain its own terminator, so spread that over two sections
+    std::string::size_type start=0, end;
+    for (; (end=x.find("]]>",start))!=std::string::npos; start=end+2)
+      o<<x.substr(start,end+2-start)<<"]]><![CDATA[";
+    return o<<x.substr(start)<<"]]>";
+  }
   
   /**
      XML serialisation object
@@ -211,6 +218,10 @@ namespace classdesc
   inline void xml_pack(xml_pack_t& x,const string& d, const std::string& a) 
   {xml_pack(x,d,const_cast<std::string&>(a));}
 
+  // white space is significant in a CDATA section, so do not pretty print its content
+  inline void xml_pack(xml_pack_t& x,const string& d, CDATA& a) {x.pack(d,a);}
+  inline void xml_pack(xml_pack_t& x,const string& d, const CDATA& a) {x.pack(d,a);}
+
   /* now define the array version  */
   template <class T> void xml_pack(xml_pack_t& x,const string& d,is_array ia,
                                      T& a, int dims,size_t ncopies,...) 
-- 
2.43.0


From c03ee6b59f5c803cfdc325bbf336d3ddf4a30599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 020/113] fix: tuples round trip through XML

---
 xml_pack_epilogue.h | 48 +++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index d79a02b..a8f05c4 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -36,25 +36,20 @@ namespace classdesc_access
     template <class T>
     void xml_pack_tuple_element(classdesc::xml_pack_t& o, const cd::string& d, T& a)
     {
-      if constexpr (std::tuple_size<T>::value>0)
-        {
-          // element name is given by the type name
-          std::string eName=classdesc::typeName<typename std::tuple_element<0,T>::type>();
-          eName=eName.substr(0,eName.find('<')); //trim off any template args
-          // strip leading namespace and qualifiers
-          const char *e=eName.c_str()+eName.length();
-          while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-          ::xml_pack(o,e,std::get<0>(a));
-          auto tail=classdesc::tupleTail(a);
-          xml_pack_tuple_element(o,d,tail);
-        }
+      // element name is given by the type name
+      std::string eName=classdesc::typeName<T>();
+      eName=eName.substr(0,eName.find('<')); //trim off any template args
+      // strip leading namespace and qualifiers
+      const char *e=eName.c_str()+eName.length();
+      while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
+      ::xml_pack(o,d+"."+e,a);
     }
 
     template <class U>
     void operator()(classdesc::xml_pack_t& o, const cd::string& d, U& a)
     {
       classdesc::xml_pack_t::Tag tag(o,d); 
-      xml_pack_tuple_element(o, d, a);
+      std::apply([&](auto&... e){(xml_pack_tuple_element(o,d,e),...);}, a);
     }
   };
 #endif
@@ -82,28 +77,25 @@ namespace classdesc_access
   template <class... A>
   struct access_xml_unpack<std::tuple<A...>>
   {
+    /// \a count - number of elements already read with a given name
     template <class T>
-    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a, int i)
-    {
-      if constexpr (std::tuple_size<T>::value>0)
-        {
-          ::xml_unpack(o,classdesc::idx(d,i),std::get<0>(a));
-          auto tail=classdesc::tupleTail(a);
-          xml_unpack_tuple_element(o,d,tail,i+1);
-          a=std::tuple_cat(std::make_tuple(std::get<0>(a)), tail);
-        }
-    }
-    
-    template <class U>
-    void operator()(classdesc::xml_unpack_t& o, const cd::string& d, U& a)
+    void xml_unpack_tuple_element
+    (classdesc::xml_unpack_t& o, const cd::string& d, T& a, std::map<std::string,size_t>& count)
     {
       // element name is given by the type name
-      std::string eName=classdesc::typeName<typename std::tuple_element<0,std::tuple<A...>>::type>();
+      std::string eName=classdesc::typeName<T>();
       eName=eName.substr(0,eName.find('<')); //trim off any template args
       // strip leading namespace and qualifiers
       const char *e=eName.c_str()+eName.length();
       while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-      xml_unpack_tuple_element(o,d+"."+e,a,0);
+      ::xml_unpack(o,classdesc::idx(d+"."+e,count[e]++),a);
+    }
+    
+    template <class U>
+    void operator()(classdesc::xml_unpack_t& o, const cd::string& d, U& a)
+    {
+      std::map<std::string,size_t> count;
+      std::apply([&](auto&... e){(xml_unpack_tuple_element(o,d,e,count),...);}, a);
     }
   };
 #endif
-- 
2.43.0


From 4fc0ecdd5f5746dfc7d1f5daa204a1b10f5b66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 021/113] fix: smart pointers in containers were wrapped twice
 in XML, and not read back

---
 polyAccessXMLPack.h | 7 +++++++
 xml_pack_base.h     | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/polyAccessXMLPack.h b/polyAccessXMLPack.h
index e3c68f8..91987d1 100644
--- a/polyAccessXMLPack.h
+++ b/polyAccessXMLPack.h
@@ -46,6 +46,10 @@ namespace classdesc
   template<class T>
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a)
   {xml_pack_smart_ptr(x,d,a);}
+  // elements of containers are const
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, const shared_ptr<T>& a)
+  {xml_pack_smart_ptr(x,d,a);}
 
 #if defined(__cplusplus) && __cplusplus<=201402
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
@@ -64,6 +68,9 @@ namespace classdesc
   template<class T, class D>
   void xml_pack(xml_pack_t& x, const string& d, std::unique_ptr<T,D>& a)
   {xml_pack_smart_ptr(x,d,a);}
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, const std::unique_ptr<T,D>& a)
+  {xml_pack_smart_ptr(x,d,a);}
 #endif
 
 #endif
diff --git a/xml_pack_base.h b/xml_pack_base.h
index 0e1c625..4da963b 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -274,6 +274,8 @@ namespace classdesc
   // special handling of shared pointers to avoid a double wrapping problem
   template<class T>
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a);
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, const shared_ptr<T>& a);
 
   template<class T>
   void xml_pack(xml_pack_t& targ, const string& desc, is_graphnode, T&)
-- 
2.43.0


From c5455773389c134939edb37dd1808bf23cb689a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 022/113] fix: XML end tags of other names were taken to match

---
 xml_unpack_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index c8572b9..685feca 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -575,7 +575,9 @@ namespace classdesc
 
     // finish parsing end tag
     tok=stream.tokenNoEOF();
-    if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
+    // check tok matches last part of scope
+    if (scope.length()<tok.length() || scope.compare(scope.length()-tok.length(),tok.length(),tok)!=0 ||
+        (scope.length()>tok.length() && scope[scope.length()-tok.length()-1]!='.'))
       throw xml_pack_error("unexpected end tag");
     for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
   }
-- 
2.43.0


From d4f18dd9649ac5fae6ce9b609158a42ece0f8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 023/113] fix: typeName of a std::tuple did not name its
 element types, so all tuples had one name

---
 classdesc.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index f465f7c..721def5 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1173,8 +1173,13 @@ namespace classdesc
 #if defined(__cplusplus) && __cplusplus>=201103L
   template <class... A> struct tn<std::tuple<A...>>
   {
-    // TODO unpack argpack to explicitly name template parameters
-    static string name() {return "std::tuple<...>";}
+    static string name() {
+      const string args[]={typeName<A>()..., string()};
+      string r="std::tuple<";
+      for (size_t i=0; i<sizeof...(A); ++i)
+        r+=(i>0? ",": "")+args[i];
+      return r+">";
+    }
   };
 #endif
   
-- 
2.43.0


From c95d9994f6db14b09527d72e60af057b23d0e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 024/113] fix: xsd_generate wrote an invalid schema for a class
 without members

---
 xsd_generate_base.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index d6eba88..5a02e7c 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -149,6 +149,12 @@ namespace classdesc
           // allow schema to be extensible - either for polymorphic
           // reasons, or for future extensibility
           // namespace attribute to solve Unique Particle Attribution (UPA) rule in XSD 1.0
+          if (typeBeingAddedTo.back().baseClass.empty() && !typeBeingAddedTo.back().sequenceAdded)
+            {
+              // the wildcard must lie within a sequence, even if there are no members
+              xsdDefs[typeBeingAddedTo.back().name]+="    <xs:sequence>\n";
+              typeBeingAddedTo.back().sequenceAdded=true;
+            }
           if (typeBeingAddedTo.back().baseClass.empty())
             xsdDefs[typeBeingAddedTo.back().name]+=
               "      <xs:any minOccurs=\"0\" "
-- 
2.43.0


From e9df89290b520dd6060bf621d48105be88bb32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 025/113] fix: schema of an array did not name its elements as
 xml_pack does, nor define their type

---
 xsd_generate_base.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 5a02e7c..880b2ef 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -240,6 +240,15 @@ namespace classdesc
     return x;
   }
 
+  // name xml_pack gives the elements of an array, container or tuple: the
+  // type name without template arguments, namespaces and qualifiers
+  template <class T> string xsd_elementName()
+  {
+    string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
+    return eName.substr(eName.find_last_of(" :")+1);
+  }
+
   template <class T> string xsd_typeName() 
   {return "tns:"+transformTypeName(typeName<T>());}
 
@@ -345,7 +354,7 @@ namespace classdesc
     os<<"  <xs:complexType name=\""+type.str()+"\">\n";
     os<<"    <xs:sequence minOccurs=\""<<ncopies<<
       "\" maxOccurs=\""<<ncopies<<"\">\n";
-    os<<"      <xs:element name=\""<<typeName<T>()<<"\" type=\""<<
+    os<<"      <xs:element name=\""<<xsd_elementName<T>()<<"\" type=\""<<
       xsd_typeName<T>()<<"\"/>\n";
     os<<"    </xs:sequence>\n";
     os<<"  </xs:complexType>\n";
@@ -353,6 +362,8 @@ namespace classdesc
     g.defineType(type.str(), os.str());
     g.addMember(tail(d), "tns:"+type.str());
     g.addDependency(type.str(), xsd_typeName<T>());
+    // ensure that the element type has a definition also
+    processExtraClass(g, d+transformTypeName(typeName<T>()), a);
   }
 
   /// enum handling
-- 
2.43.0


From b455eca0ed1bf6ff3dc6b352c12681d7987b501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 026/113] fix: root element of a schema had the type of the
 base class of the class it is for

---
 xsd_generate_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 880b2ef..e5bd041 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -266,7 +266,7 @@ namespace classdesc
   xsd_generate(xsd_generate_t& g, const string& d, const T& a)
   {
     // if this is a toplevel name, record it as the root element
-    if (!d.empty() && d.find('.')==string::npos)
+    if (!d.empty() && d.find('.')==string::npos && g.currentDescription()!=d)
       {
         g.rootName=d;
         g.rootType=xsd_typeName<T>();
-- 
2.43.0


From 0c8fe6f35a4dc0343abd7938a11e9d8bb5a2ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 027/113] fix: schema of a tuple did not name its elements as
 xml_pack does, nor could containers of tuples have one

---
 xsd_generate_base.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index e5bd041..ff78d56 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -298,6 +298,12 @@ namespace classdesc
   template <class T, class U>
   void processExtraClass(xsd_generate_t& g, const string& d, const std::pair<T,U>& a)
   {xsd_generate(g,"",a);}
+
+#if defined(__cplusplus) && __cplusplus>=201703L
+  template <class... A>
+  void processExtraClass(xsd_generate_t& g, const string& d, const std::tuple<A...>& a)
+  {xsd_generate(g,"",a);}
+#endif
   
   template <> inline string xsd_typeName<bool>() {return "xs:boolean";}
   template <> inline string xsd_typeName<char>() {return "xs:string";}
@@ -452,7 +458,7 @@ namespace classdesc
   {
     if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
       {
-        xsd_generate(g,d+"."+transformTypeName(typeName<typename std::tuple_element<0,std::tuple<A...>>::type>()),
+        xsd_generate(g,d+"."+xsd_elementName<typename std::tuple_element<0,std::tuple<A...>>::type>(),
                      std::get<0>(e));
         tuple_element_generate(g,d,classdesc::tupleTail(e));
       }
-- 
2.43.0


From d2277d5deb46a8352508fb80c93c504bb2d461f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 028/113] fix: schema made the members of a class optional if
 the class was first met through a smart pointer

---
 xsd_generate_base.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index ff78d56..0aebb83 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -28,9 +28,10 @@ namespace classdesc
       bool complete; //set to true if current type definition is complete
       bool sequenceAdded;
       bool derivedFromString; //True if derived from string - expect data
+      bool optional; // whether the member having this type is optional
       string name, description, baseClass;
       TypeBeingAddedTo(const string& name="", const string& d="", bool complete=false): 
-        complete(complete), sequenceAdded(false), derivedFromString(false), name(name), description(d) {}      
+        complete(complete), sequenceAdded(false), derivedFromString(false), optional(false), name(name), description(d) {}      
     };
       
     std::vector<TypeBeingAddedTo> typeBeingAddedTo;
@@ -136,6 +137,9 @@ namespace classdesc
     {
       typeBeingAddedTo.push_back
         (TypeBeingAddedTo(type, description, xsdDefs.count(type)>0));
+      // that a member is optional does not make the members of its type optional
+      typeBeingAddedTo.back().optional=optional;
+      optional=false;
       if (!typeBeingAddedTo.back().complete)
         {
           xsdDefs[type]="  <xs:complexType name=\""+type+"\">\n";
@@ -167,6 +171,7 @@ namespace classdesc
               "      </xs:complexContent>\n";
           xsdDefs[typeBeingAddedTo.back().name]+="  </xs:complexType>\n";
         }
+      optional=typeBeingAddedTo.back().optional;
       typeBeingAddedTo.pop_back();
     }
 
-- 
2.43.0


From bdf120ad1c72dfc480d71e60db12e864ff56d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 029/113] fix: xsd_generate recursed for ever on a class that
 refers to itself

---
 xsd_generate_base.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 0aebb83..70b5bbb 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -183,6 +183,9 @@ namespace classdesc
         return "";
     }
 
+    /// true if the definition of \a type has been started
+    bool defined(const string& type) const {return xsdDefs.count(type)>0;}
+
     /// add a complete XSD definition for \a type
     void defineType(const string& type, const string& def)
     {
@@ -266,6 +269,10 @@ namespace classdesc
       >
     >{};
 
+  template <class T>
+  typename enable_if<EverythingElse<T>, void>::T
+  processExtraClass(xsd_generate_t& g, const string& d, const T& a);
+
   template <class T>
   typename enable_if<EverythingElse<T>, void>::T
   xsd_generate(xsd_generate_t& g, const string& d, const T& a)
@@ -282,15 +289,9 @@ namespace classdesc
     else
       g.addMember(tail(d),xsd_typeName<T>());
 
-    g.openType(transformTypeName(typeName<T>()), d);
-    classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
-    g.closeType();
+    processExtraClass(g,d,a);
   }
 
-  template <class T>
-  typename enable_if<EverythingElse<T>, void>::T
-  processExtraClass(xsd_generate_t& g, const string& d, const T& a);
-
   template <class T>
   typename enable_if<Not<EverythingElse<T> >, void>::T
   processExtraClass(xsd_generate_t& g, const string& d, const T& a)
@@ -527,6 +528,8 @@ namespace classdesc
   typename enable_if<EverythingElse<T>, void>::T
   processExtraClass(xsd_generate_t& g, const string& d, const T& a)
   {
+    // define each type once, so that a type can refer to itself
+    if (g.defined(transformTypeName(typeName<T>()))) return;
     g.openType(transformTypeName(typeName<T>()), d);
     classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
-- 
2.43.0


From c9a4f0c248e098ec22be2cc67bbc9163dbfd3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 030/113] fix: random_init added to the contents of associative
 containers

---
 random_init_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/random_init_base.h b/random_init_base.h
index e7830e9..7debad3 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -132,6 +132,7 @@ namespace classdesc
   enable_if<is_associative_container<T>, void>::T
   random_initp(random_init_t& r, const string& d, T& a, dummy<1> dum=0)
   {
+    a.clear();
     int numElem=int(10*r.rand());
     for (int i=0; i<numElem; ++i)
       {
-- 
2.43.0


From 5d022e7841ff7ebb157c88082c45009dea184c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 031/113] fix: random_init did not initialise arrays

---
 random_init_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/random_init_base.h b/random_init_base.h
index 7debad3..b01d72c 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -84,13 +84,13 @@ namespace classdesc
 
   // array handling
   template <class T>
-  void random_init(random_init_t& r, const string& d, is_array ia, const T& a, 
+  void random_init(random_init_t& r, const string& d, is_array ia, T& a, 
             int ndims,size_t ncopies,...)
   {
     std::va_list ap;
     va_start(ap,ncopies);
     size_t cnt=ncopies;
-    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,size_t);
+    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,int); //assume that 2 and higher D arrays dimensions are int
     va_end(ap);
     for (size_t i=0; i<cnt; ++i)
       random_init(r,d,(&a)[i]);
-- 
2.43.0


From 9fae0467429bfb0cb130b80cea541094658ae38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 032/113] fix: random_init_t::rand could return 1, outside its
 range, and so exceed arrays of enumerators

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index b01d72c..2fdaedf 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -21,7 +21,7 @@ namespace classdesc
   {
   public:
     /// return a uniform random number in [0..1)
-    virtual double rand() {return double(std::rand())/RAND_MAX;}
+    virtual double rand() {return std::rand()/(RAND_MAX+1.0);}
     virtual ~random_init_t() {}
   };
 
-- 
2.43.0


From 8879eae26a16d916e65fd4ddc81ab77c99295375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 033/113] fix: random_init did not initialise the keys of maps

---
 random_init_base.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index 2fdaedf..1ae388c 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -128,6 +128,12 @@ namespace classdesc
     random_init(r,d+".second",a.second);
   }
 
+  // type of a value to be inserted into an associative container: the
+  // keys of a map's value_type are const, so cannot be initialised
+  template <class T> struct random_init_value {typedef T type;};
+  template <class K, class V> struct random_init_value<std::pair<const K,V> >
+  {typedef std::pair<K,V> type;};
+
   template <class T> typename
   enable_if<is_associative_container<T>, void>::T
   random_initp(random_init_t& r, const string& d, T& a, dummy<1> dum=0)
@@ -136,7 +142,7 @@ namespace classdesc
     int numElem=int(10*r.rand());
     for (int i=0; i<numElem; ++i)
       {
-        typename T::value_type v;
+        typename random_init_value<typename T::value_type>::type v;
         random_init(r,d,v);
         a.insert(v);
       }
-- 
2.43.0


From c2d02be26f1b5b74726c01a3dc662b6b20a372ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 034/113] fix: random_init of a std::unique_ptr did not compile

---
 random_init_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_epilogue.h b/random_init_epilogue.h
index b70691c..c405c4e 100644
--- a/random_init_epilogue.h
+++ b/random_init_epilogue.h
@@ -71,7 +71,7 @@ namespace classdesc_access
   {
     void operator()(cd::random_init_t& x, const cd::string& d, 
                     std::unique_ptr<T,D>& a)
-    {json_pack_smart_ptr(x,d,a);}
+    {random_init_smart_ptr(x,d,a);}
   };
 
 #endif
-- 
2.43.0


From 694834e658bc4e2fa7a64953fa5c4e0758ab662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 035/113] fix: enumerator values with commas in brackets, and
 enums without enumerators, gave wrong enum tables

---
 classdesc.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 95c6d9d..6be13e8 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -266,18 +266,28 @@ void assign_enum_action(tokeninput& input, string prefix)
   if (input.token=="{") /* only assign action if definition, not declaration */
     {
       nested[prefix].push_back(bareEnumName);
-      // load up the list of enum symbols
-      for ( ; input.token != ";"; input.nexttok())
+      // load up the list of enum symbols. A symbol follows { or a comma,
+      // and is followed by =, a comma or }. Values may contain anything.
+      string symbol;
+      int nesting=0; // level of brackets within a value
+      for (input.nexttok(); nesting>0 || input.token!="}"; input.nexttok())
         {
-          if (input.token == "=" || input.token == "," || input.token=="}")
-            if (input.lasttoken!=",") //not sure if this is correct C++, but
-              //compilers accept blank enumerator-definitions
-              enum_keys[enumname].push_back(input.lasttoken);
-          if (input.token == "=") {
-            for (input.nexttok(); input.token!="," && input.token!="}";
-                 input.nexttok()); //skip value
-          }
+          bool value=nesting>0;
+          if (input.token=="(" || input.token=="{" || input.token=="[")
+            nesting++;
+          else if (input.token==")" || input.token=="}" || input.token=="]")
+            nesting--;
+          if (!value && !symbol.empty() && (input.token=="=" || input.token==","))
+            enum_keys[enumname].push_back(symbol);
+          symbol.clear();
+          if (!value && (input.lasttoken=="{" || input.lasttoken==",") &&
+              isIdentifierStart(input.token[0]))
+            symbol=input.token;
         }
+      if (!symbol.empty())
+        enum_keys[enumname].push_back(symbol);
+      while (input.token!=";") input.nexttok(); //skip any declarators
+
       actionlist_t actionlist;
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
-- 
2.43.0


From 266289671ee5c343259a71142e0f7b4ff3f40de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 036/113] fix: EnumKeys::has did not compile for an enum class

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index 721def5..97c9894 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -796,7 +796,7 @@ namespace classdesc
     }
     std::string operator()(T val) const {return operator()(int(val));}
 
-    bool has(T val) const {return v2s.count(val);}
+    bool has(T val) const {return v2s.count(int(val));}
     bool has(const std::string& s) const {return s2v.count(s);}
     
     // use these to iterate of the enum's keys
-- 
2.43.0


From d01fd04e50d6f8c2f73e57da3841e7c8249eab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 037/113] fix: enum struct was not taken as an enum

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6be13e8..320c0e6 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -250,7 +250,7 @@ set<string> token_set(const string& s)
 void assign_enum_action(tokeninput& input, string prefix)
 {
   string enumname="enum ";
-  if (input.token=="class")
+  if (input.token=="class" || input.token=="struct")
     {
       input.nexttok();
       enumname+="class ";
-- 
2.43.0


From a82db2e0217fcf195af6576790878ff60522739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 038/113] fix: typeName of wchar_t was that of an integer, and
 std::auto_ptr lacked its namespace

---
 classdesc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index 97c9894..ac7b64b 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -589,6 +589,7 @@ namespace classdesc
   template <> inline std::string typeName<void>()    {return "void";}
   template <> inline std::string typeName<bool>()    {return "bool";}
   template <> inline std::string typeName<char>()    {return "char";}
+  template <> inline std::string typeName<wchar_t>() {return "wchar_t";}
   template <> inline std::string typeName<short>() {return "short";}
   template <> inline std::string typeName<int>()   {return "int";}
   template <> inline std::string typeName<long>()  {return "long";}
@@ -660,7 +661,7 @@ namespace classdesc
   template <class T> struct tn<std::auto_ptr<T> >
   {
     static std::string name()
-    {return "auto_ptr<"+typeName<T>()+">";}
+    {return "std::auto_ptr<"+typeName<T>()+">";}
   };
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
 #pragma GCC diagnostic pop
-- 
2.43.0


From aee51c1652588e077d3fbb8edaf6045c6156caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 039/113] fix: typeName gave multidimensional arrays transposed
 bounds, arrays of const an endless recursion, and const pointers the name of
 pointers to const

---
 classdesc.h         | 22 +++++++++++++++++++---
 typeName_epilogue.h | 11 ++++++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index ac7b64b..bc8c284 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -911,15 +911,31 @@ namespace classdesc
     {return "classdesc::Enum_handle<"+typeName<T>()+">";}
   };
   
-  template <class T,int n> struct tn<T [n]>
+  ///@{ element type and bounds of arrays
+  template <class T> struct ArrayName
   {
-    static std::string name()
+    static const bool value=false;
+    static std::string element() {return typeName<T>();}
+    static std::string bounds() {return "";}
+  };
+  template <class T,int n> struct ArrayName<T [n]>
+  {
+    static const bool value=true;
+    static std::string element() {return ArrayName<T>::element();}
+    static std::string bounds()
     {
       std::ostringstream os;
-      os << typeName<T>()<<"["<<n<<"]";
+      os << "["<<n<<"]"<<ArrayName<T>::bounds();
       return os.str();
     }
   };
+  ///@}
+
+  template <class T,int n> struct tn<T [n]>
+  {
+    static std::string name()
+    {return ArrayName<T [n]>::element()+ArrayName<T [n]>::bounds();}
+  };
 
   
   /** support for constant sized arrays  */
diff --git a/typeName_epilogue.h b/typeName_epilogue.h
index d5768a9..f50c2e4 100644
--- a/typeName_epilogue.h
+++ b/typeName_epilogue.h
@@ -38,14 +38,19 @@ namespace classdesc
   template <class T> typename
   enable_if<
     And<
-      And<Not<is_const<T> >,Not<is_integral<T> > >,
+      And<Or<Not<is_const<T> >,ArrayName<T> >,Not<is_integral<T> > >,
       Not<is_function<T> >
       >,std::string>::T
   typeNamep() {return tn<T>::name();}
 
   template <class T> typename
-  enable_if<is_const<T>,std::string>::T
-  typeNamep() {return "const "+typeName<typename remove_const<T>::type>();}
+  enable_if<And<is_const<T>,Not<ArrayName<T> > >,std::string>::T
+  typeNamep()
+  {
+    std::string name=typeName<typename remove_const<T>::type>();
+    // what is before the * belongs to the type pointed to
+    return is_pointer<T>::value? name+" const": "const "+name;
+  }
 
   template <class T>
   typename enable_if<And<Not<is_function<T> >,Not<is_member_function_pointer<T> > >,  std::string>::T
-- 
2.43.0


From f140e8c8c295444c672905a80a9824f570aabf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 040/113] fix: typeName<void*> did not compile

---
 typeName_epilogue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typeName_epilogue.h b/typeName_epilogue.h
index f50c2e4..f8c0b00 100644
--- a/typeName_epilogue.h
+++ b/typeName_epilogue.h
@@ -28,8 +28,9 @@ namespace classdesc
   typeNamep() {return integralTypeName<T>();}
 
 #if defined(__cplusplus) && __cplusplus>=201103L  
+  // pointers are named as such, and the traits of void* are ill-formed
   template <class T>
-  struct tn<T, void_t<typename std::iterator_traits<T>::value_type>>
+  struct tn<T, void_t<typename std::iterator_traits<typename enable_if<Not<is_pointer<T>>,T>::T>::value_type>>
   {
     static std::string name() {return "iterator";}
   };
-- 
2.43.0


From 74db5547fd51403ed86cd070f01db719d6eb1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 041/113] fix: typeName of class templates with value or
 variadic parameters, and of partial specialisations

---
 classdesc.cc | 119 +++++++++++++++++++++++++++++++++------------------
 classdesc.h  |  27 +++++++++++-
 2 files changed, 102 insertions(+), 44 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 320c0e6..085d236 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -75,6 +75,81 @@ struct act_pair
 
 typedef vector<act_pair> actionlist_t;
 
+/* splits a bracketed list <a,b,...>, ignoring whatever follows it */
+vector<string> splitTemplateList(const string& list)
+{
+  vector<string> r;
+  int nesting=0;
+  for (size_t i=0, start=1; i<list.size(); ++i)
+    switch (list[i])
+      {
+      case '<': case '(': case '[': case '{': 
+        nesting++; 
+        break;
+      case '>': case ')': case ']': case '}': 
+        nesting--;
+        if (nesting>0) break;
+        r.push_back(trimWS(list.substr(start,i-start)));
+        return r;
+      case ',':
+        if (nesting>1) break;
+        r.push_back(trimWS(list.substr(start,i-start)));
+        start=i+1;
+      }
+  return r;
+}
+
+/* returns the inside of a C++ string literal naming template arguments
+   \a args, which may refer to template parameters declared in \a params */
+string templateArgNames(const string& args, const string& params)
+{
+  vector<string> param=splitTemplateList(params), arg=splitTemplateList(args);
+  // names of parameters, and whether it is a type
+  map<string,bool> isType;
+  for (size_t i=0; i<param.size(); ++i)
+    {
+      string decl=trimWS(param[i].substr(0,param[i].find('=')));
+      size_t name=decl.size();
+      while (name>0 && isIdentifierChar(decl[name-1])) name--;
+      string keyword=decl.substr(0,decl.find_first_of(" \t\n."));
+      isType[decl.substr(name)]= keyword=="class" || keyword=="typename";
+    }
+
+  string r="< ";
+  for (size_t i=0; i<arg.size(); ++i)
+    {
+      string x=arg[i];
+      bool variadic=x.size()>3 && x.substr(x.size()-3)=="...";
+      if (variadic) x=trimWS(x.substr(0,x.size()-3));
+      bool dependent=isType.count(x)>0, type=dependent && isType[x];
+      if (!dependent) // could be an expression involving parameters
+        {
+          for (map<string,bool>::iterator p=isType.begin(); p!=isType.end(); ++p)
+            for (size_t j=x.find(p->first); j!=string::npos; j=x.find(p->first,j+1))
+              if ((j==0 || !isIdentifierChar(x[j-1])) &&
+                  (j+p->first.size()>=x.size() || !isIdentifierChar(x[j+p->first.size()])))
+                dependent=true;
+          type=dependent && isIdentifierStart(x[0]) && x.substr(0,6)!="sizeof";
+        }
+      if (variadic && type)
+        {
+          r+="\"+varTn<"+x+"...>("+(i==0? "": "\" , \"")+")+\"";
+          continue;
+        }
+      if (i>0)
+        r+=" , ";
+      if (!dependent)
+        r+=x;
+      else if (variadic)
+        r+="...";
+      else if (type)
+        r+="\"+typeName< "+x+" >()+\"";
+      else
+        r+="\"+templateArg("+x+")+\"";
+    }
+  return r+" > ";
+}
+
 struct action_t
 {
   string type, templ, tnTempl, namespace_name;
@@ -88,48 +163,8 @@ struct action_t
     // ignore the problem in a syntactically valid way
     if (templ.find("template")!=string::npos)
       tnTempl=templ;
-    else
-      // extract template typename parameters from templ, and replace with typename calls
-      for (size_t i=0; i<templ.size(); )
-        {
-          // pick first of class or template
-          size_t j=templ.find("class",i);
-          if (j==string::npos) j=templ.size();
-          size_t jj=templ.find("typename",i);
-          if (jj!=string::npos && jj<j)
-            j=jj;
-          tnTempl+=te.substr(i,j-i);
-        
-          j=templ.find_first_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          j=templ.find_first_not_of(" \t",j);
-          bool variadic=templ.substr(j,3)=="...";
-          j=templ.find_first_not_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          int braces=0;
-          // grab out full type name
-          for (i=j; i<templ.size(); ++i)
-            {
-              switch(templ[i])
-                {
-                case '<':
-                  ++braces; continue;
-                case '>':
-                  if (--braces==0) break;
-                  continue;
-                default:
-                  if (isalnum(templ[i]) || templ[i]=='_' || braces>0)
-                    continue;
-                  else
-                    break;
-                }
-              break;
-            }
-          if (variadic)
-            tnTempl+="\"+varTn<"+templ.substr(j,i-j)+"...>()+\"";
-          else
-            tnTempl+="\"+typeName<"+templ.substr(j,i-j)+">()+\"";
-        }
+    else if (type.find("<")!=string::npos)
+      tnTempl=templateArgNames(type.substr(type.find("<")),templ);
   }
 };
 
diff --git a/classdesc.h b/classdesc.h
index bc8c284..68b24c1 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -581,8 +581,17 @@ namespace classdesc
 
 #if defined(__cplusplus) && __cplusplus>=201103L
   // handle variadic arguments
-  template <class T, class... A> std::string varTn() {return typeName<T>()+","+varTn<A...>();}
-  template <class T> std::string varTn() {return typeName<T>();}
+  template <class... A> std::string varTn(const char* separator="")
+  {
+    std::string r;
+    for (const std::string& name: std::initializer_list<std::string>{typeName<A>()...})
+      {
+        // separator precedes the list, if there is anything in it
+        r+=r.empty()? separator: ",";
+        r+=name;
+      }
+    return r;
+  }
 #endif
   
   ///@{ a string representation of the type
@@ -911,6 +920,20 @@ namespace classdesc
     {return "classdesc::Enum_handle<"+typeName<T>()+">";}
   };
   
+  ///@{ representation of the value arguments of templates
+  template <class T>
+  typename enable_if<Not<is_enum<T> >, std::string>::T templateArg(T x)
+  {
+    std::ostringstream os;
+    os << +x;
+    return os.str();
+  }
+  template <class T>
+  typename enable_if<is_enum<T>, std::string>::T templateArg(T x)
+  {return "("+typeName<T>()+")"+templateArg(static_cast<int>(x));}
+  inline std::string templateArg(bool x) {return x? "true": "false";}
+  ///@}
+  
   ///@{ element type and bounds of arrays
   template <class T> struct ArrayName
   {
-- 
2.43.0


From 004b45cb7a4a7ec5df0108922bf2000d8ea7da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 042/113] fix: elaborated type specifiers of members were taken
 for nested classes, and classes declared final or alignas were ignored

---
 classdesc.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 085d236..06393a5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -332,6 +332,19 @@ void assign_enum_action(tokeninput& input, string prefix)
     }
 }
   
+/* skips any alignas between class and the name of the class */
+void skip_class_attributes(tokeninput& input)
+{
+  string classtok=input.lasttoken;
+  while (input.token=="alignas" || input.token=="__attribute__" || input.token=="__declspec")
+    {
+      input.nexttok();
+      gobble_delimited(input,"(",")");
+      input.nexttok();
+      input.lasttoken=classtok;
+    }
+}
+
 void parse_typedef(tokeninput& input, string prefix="");
 void assign_class_action(tokeninput& input, string prefix,
 			 string template_args, string classargs, 
@@ -598,11 +611,18 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
-          if (!is_private && !is_template) nested[prefix].push_back(input.token);
+          skip_class_attributes(input);
+          string nestedName=input.token;
+          bool isNested=!is_private && !is_template;
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
 	  if (isIdentifierStart(input.token[0]))  /* named class */
-	    assign_class_action(input,prefix,targs2,targs1,is_private);
+            {
+              assign_class_action(input,prefix,targs2,targs1,is_private);
+              // elaborated type specifiers refer to a type declared elsewhere
+              if (isNested && strchr("};",input.token[0]))
+                nested[prefix].push_back(nestedName);
+            }
 	  else
 	    {
               cerr <<inputFile<<":"<<input.line()<<"::error";
@@ -1055,6 +1075,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
       input.nexttok();
       classname+="::"+input.token;
     }
+  if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       action_t action(classtok+classname,
@@ -1373,6 +1394,7 @@ int main(int argc, char* argv[])
  	  if (input.token=="class" || input.token=="struct")
 	    {
 	      input.nexttok();
+              skip_class_attributes(input);
 	      if (isIdentifierStart(input.token[0]))  /* named class */
                 
 		assign_class_action(input,namespace_name,targs,targs,false);
-- 
2.43.0


From 2e50fa485caf515f5d1e59194cf857b30f554273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 043/113] fix: declarators after an enum definition, and
 members following a private elaborated enum, were not described

---
 classdesc.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 06393a5..a723681 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -321,8 +321,6 @@ void assign_enum_action(tokeninput& input, string prefix)
         }
       if (!symbol.empty())
         enum_keys[enumname].push_back(symbol);
-      while (input.token!=";") input.nexttok(); //skip any declarators
-
       actionlist_t actionlist;
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
@@ -649,7 +647,15 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               assign_enum_action(input,prefix);
             }
           else
-            gobble_delimited(input,"","}");
+            {
+              // skip to the body, if there is one
+              if (input.token=="class" || input.token=="struct") input.nexttok();
+              if (isIdentifierStart(input.token[0])) input.nexttok();
+              if (input.token==":")
+                while (!strchr(";{",input.token[0])) input.nexttok();
+              if (input.token=="{")
+                gobble_delimited(input,"{","}");
+            }
 	}
 
 
-- 
2.43.0


From 96d4e3e1f84082c7f0a216cbcdcbcaebc8f13518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 044/113] fix: enums nested in class templates gave descriptors
 that did not compile

---
 classdesc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index a723681..549de5a 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -326,7 +326,9 @@ void assign_enum_action(tokeninput& input, string prefix)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
       else
         actionlist.push_back(act_pair("","(int&)arg"));
-      actions.push_back(action_t(enumname,actionlist,namespace_name));
+      // as with nested classes, those of templates cannot be specialised for
+      if (prefix.find("<")==string::npos)
+        actions.push_back(action_t(enumname,actionlist,namespace_name));
     }
 }
   
-- 
2.43.0


From 498b97be2dad4f626160c214fbf8da7e849ec34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 045/113] fix: with -overload, default arguments with commas
 and repeated template class names gave signatures that did not compile

---
 classdesc.cc | 66 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 549de5a..c359ea6 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -350,13 +350,60 @@ void assign_class_action(tokeninput& input, string prefix,
 			 string template_args, string classargs, 
                          bool is_private);
 
+// removes the default arguments from a parameter list
+string without_defaults(const string& argList)
+{
+  string r;
+  bool include=true;
+  int nesting=0; // level of brackets
+  for (size_t i=0; i<argList.size(); ++i)
+    {
+      size_t start=i;
+      switch (argList[i])
+        {
+        case '=':
+          if (nesting==0) include=false;
+          break;
+        case ',':
+          if (nesting==0) include=true;
+          break;
+        case '(': case '{': case '[':
+          nesting++;
+          break;
+        case ')': case '}': case ']':
+          nesting--;
+          break;
+        case '<':
+          {
+            // skip over a list of template arguments, but not over an operator
+            int angles=0;
+            for (size_t j=i; j<argList.size() && !strchr(";{}\"",argList[j]); ++j)
+              if (argList[j]=='<')
+                angles++;
+              else if (argList[j]=='>' && --angles==0)
+                {
+                  i=j;
+                  break;
+                }
+            break;
+          }
+        case '"': case '\'':
+          while (++i<argList.size() && argList[i]!=argList[start])
+            if (argList[i]=='\\') ++i;
+          break;
+        }
+      if (include) r+=argList.substr(start,i+1-start);
+    }
+  return r;
+}
+
 // search and replace any shorn class types with fully qualified versions
 string replaceShornTypes(const string& input, const string& shornType, const string& fullType)
 {
   string r;
   for (size_t i=0, j=input.find(shornType); i!=string::npos; i=j, j=input.find(shornType,i))
     {
-      r+=input.substr(i,j);
+      r+=input.substr(i,j==string::npos? j: j-i);
       if (j!=string::npos)
         {
           j+=shornType.size();
@@ -802,21 +849,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 else
                   action+="&"+ /*namespace_name +*/ prefix + memname;
                 // strip any default arguments from argList
-                string al;
-                int braceCnt=0;
-                bool include=true;
-                for (string::iterator i=argList.begin(); i!=argList.end(); ++i)
-                  switch (*i)
-                    {
-                    case '=': include=false; break;
-                    case '{': braceCnt++; break;
-                    case '}': braceCnt--; break;
-                    case ',': if (braceCnt==0) include=true;
-                      /*fallthrough*/
-                    default:
-                      if (include) al+=*i;
-                    }
-                
+                string al=without_defaults(argList);
+
                 if (prefix.find("<")!=string::npos)
                   {
                     string fullType=prefix.substr(0,prefix.length()-2);
-- 
2.43.0


From 7b87203d32e33751bd79da97abd034f220ed76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 046/113] fix: commas in initializers were taken for further
 members

---
 classdesc.cc | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index c359ea6..a809934 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -420,6 +420,47 @@ string replaceShornTypes(const string& input, const string& shornType, const str
 }
 
 
+/* skips the <...> at the input's current position, if that is a list of
+   template arguments rather than a comparison. The last token read is >. */
+void skip_template_arguments(tokeninput& input)
+{
+  if (input.token!="<" || !isIdentifierStart(input.lasttoken[0])) return;
+  tokeninput::mark_t mark=input;
+  int angles=0;
+  for (;;)
+    {
+      if (input.token=="<")
+        angles++;
+      else if (input.token==">" || input.token==">>")
+        {
+          angles-=input.token.length();
+          if (angles<=0) return;
+        }
+      else if (input.token=="(")
+        gobble_delimited(input,"(",")");
+      else if (input.token=="[")
+        gobble_delimited(input,"[","]");
+      else if (strchr(";{})",input.token[0]))
+        break;
+      input.nexttok();
+    }
+  input=mark; // not a list
+}
+
+/* skips to the comma or semicolon that ends a field specifier or initializer */
+void skip_initializer(tokeninput& input)
+{
+  for (; !strchr(";,",input.token[0]); input.nexttok())
+    if (input.token=="{")
+      gobble_delimited(input,"{","}");
+    else if (input.token=="(")
+      gobble_delimited(input,"(",")");
+    else if (input.token=="[")
+      gobble_delimited(input,"[","]");
+    else
+      skip_template_arguments(input);
+}
+
 class register_classname
 {
   actionlist_t& actionlist;
@@ -739,7 +780,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           if (input.token[0]=='{')
             gobble_delimited(input,"{","}");
 	  /* skip over field specifier or initializer */
-	  while (!strchr(";,",input.token[0])) input.nexttok();
+	  skip_initializer(input);
 	}
 
       /* operator members - discard these */
-- 
2.43.0


From 0889ac47039ae6853c0a41f7e97a555483f773f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 047/113] fix: braces in member initializer lists were taken
 for the body of the constructor

---
 classdesc.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index a809934..117455c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -491,6 +491,24 @@ public:
   }
 };
 
+/* skips the member initializers of a constructor. The next token is the
+   { of its body */
+void skip_member_initializers(tokeninput& input)
+{
+  do
+    {
+      for (input.nexttok(); !strchr("({;",input.token[0]); input.nexttok())
+        skip_template_arguments(input);
+      if (input.token=="{")
+        gobble_delimited(input,"{","}");
+      else if (input.token[0]=='(')
+        gobble_delimited(input,"(",")");
+      if (input.token!=";") input.nexttok();
+      if (input.token=="...") input.nexttok();
+    }
+  while (input.token==",");
+}
+
 actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", string targs="")
 {
   actionlist_t         actionlist;
@@ -849,6 +867,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               input.nexttok();
               if (input.token=="const") is_const=true;
               if (input.token=="delete") deleted=true;
+              if (input.token==":") skip_member_initializers(input);
             }
 
 	  /* member functions require object passed as well*/
-- 
2.43.0


From fe6fb235d668c59e81656a4463ce936c69dc38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 048/113] fix: base classes named from the global namespace
 gave <:: in descriptors

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 117455c..5daf066 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -607,7 +607,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  if (!respect_private || !is_private)
             actionlist.push_back
               (act_pair("", 
-                        "classdesc::base_cast<"+
+                        "classdesc::base_cast<"+ string(!typename_needed && baseclass[0]==':'? " ": "")+
                         // look for member qualification in a template context
                         string(typename_needed? "typename ": "")+
                         baseclass+" >::cast("+varname+")",
-- 
2.43.0


From 9bdd0642995e1e6539cc8eb16591b446f08d752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 049/113] fix: named unions within a class were described as
 members of it

---
 classdesc.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 5daf066..c08222e 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -767,6 +767,23 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	}
 
 
+      /* named unions are types, not members */
+      if (input.token=="union")
+        {
+          input.nexttok();
+          if (isIdentifierStart(input.token[0]))
+            {
+              string unionName=input.token;
+              input.nexttok();
+              if (input.token=="{")
+                {
+                  gobble_delimited(input,"{","}");
+                  if (!is_private && !is_template) nested[prefix].push_back(unionName);
+                  continue;
+                }
+            }
+        }
+
       /* handle unnamed unions as a special case */
       if (input.lasttoken=="union" && input.token=="{")
 	{
-- 
2.43.0


From 57c498ff88aeb0b860ca813b800944cacd9bf223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 050/113] fix: const, static and template leaked into the
 declarations that followed

---
 classdesc.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index c08222e..22f7a29 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -487,7 +487,6 @@ public:
         else
           actionlist.push_back(act_pair("."+name,action,memberName,is_static));
       }
-    is_static=false;
   }
 };
 
@@ -702,6 +701,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               input.nexttok();     
             }  
           usingNames.insert('.'+lastToken);
+          is_template=false;
 
           continue;
         }
@@ -830,7 +830,6 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	    gobble_delimited(input,"(",")");
 	  /* skip to end of statement */
 	  while (!strchr("{;",input.token[0])) input.nexttok();
-	  reg.is_static=false;
 	}
 
       // alignas declarations need to be discarded
@@ -957,6 +956,12 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  is_template=false;
 	}
 
+      if (input.token==";") /* end of declaration */
+        {
+          reg.is_static=reg.is_const=false;
+          is_template=false;
+        }
+
 
       /* array member type */
       if (input.token=="[")
@@ -991,7 +996,11 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	}
 
       if (input.token=="{")  /* skip function/enum/whatever definitions */
-        gobble_delimited(input,"{","}");
+        {
+          gobble_delimited(input,"{","}");
+          reg.is_static=reg.is_const=false;
+          is_template=false;
+        }
 
       // capture member function return type for overload processing
       /* handle templated types */
-- 
2.43.0


From fb0953e3f21890dabccea474b4ea9d9bb3188de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 051/113] fix: static_assert and decltype were described as
 methods, inline friend functions ended the class, and statics that are
 constexpr or pointers to const were misjudged

---
 classdesc.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 22f7a29..b7d1e0a 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -832,16 +832,18 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  while (!strchr("{;",input.token[0])) input.nexttok();
 	}
 
-      // alignas declarations need to be discarded
-      if (input.token=="alignas") 
+      // alignas declarations need to be discarded, as do assertions,
+      // and a decltype is not a member function
+      if (input.token=="alignas" || input.token=="static_assert" || input.token=="decltype") 
         {input.nexttok(); gobble_delimited(input,"(",")");}
 
       if (input.token=="virtual") is_virtual=true;
       if (input.token=="static") reg.is_static=true;
-      if (input.token=="const") reg.is_const=true;
-      if (input.token=="friend")  /* skip friend statement */
-        while (input.token!=";")
-          input.nexttok();
+      if (input.token=="const" || input.token=="constexpr") reg.is_const=true;
+      if (input.token=="*" || input.token=="&") reg.is_const=false; // what is pointed to is const
+      if (input.token=="friend")  /* skip friend statement, which may be a definition */
+        for (; !strchr(";{",input.token[0]); input.nexttok())
+          if (input.token=="(") gobble_delimited(input,"(",")");
 
       if (input.token[0]=='(') /* member functions, or function pointers */
 	{
-- 
2.43.0


From 6b625fc23488e6bf8ebb79bd6aa4eb7fb866f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 052/113] fix: pointers to functions did not compile with
 -overload

---
 classdesc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index b7d1e0a..75d52e5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -849,6 +849,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	{
 	  string memname=input.lasttoken;        // function name
           bool is_destructor=input.tokenBeforeLast=="~";
+          bool is_pointer=false;
           argList.erase();
 
 	  /* check ahead for function pointers */
@@ -866,6 +867,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		{
 		  input.nexttok();
 		  memname=input.token;
+                  is_pointer=true;
 		  gobble_delimited(input,"(",")");
 		  while (input.token[0]!='(') input.nexttok();
 		  gobble_delimited(input,"(",")");
@@ -922,7 +924,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 string tempFnPtrDecl="TmpMemPtr_"+memname+str(num_instances["."+memname]);
                 if (type==MemberSig::is_constructor)
                     action="classdesc::is_constructor(),";
-                if (overloadingAllowed)
+                if (overloadingAllowed && !is_pointer)
                   action+=tempFnPtrDecl;
                 else
                   action+="&"+ /*namespace_name +*/ prefix + memname;
@@ -940,7 +942,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 
                 if (objc) { action += ", \"" + rType + "\", " + "\"" + argList + "\""; }
                 rType.erase();
-                if (overloadingAllowed && !reg.is_private)
+                if (overloadingAllowed && !is_pointer && !reg.is_private)
                   overloadTempVarDecls[/*namespace_name+*/prefix].push_back
                     (MemberSig(tempFnPtrDecl,returnType,al,prefix,memname,type));
                 if (reg.is_static)
-- 
2.43.0


From 84623969076fc1f6249b031c46bbf63c35973a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 053/113] fix: names starting with enum, class or struct were
 taken for type qualifiers

---
 classdesc.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 75d52e5..626da6b 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1293,11 +1293,11 @@ struct GuardMacro
 
 string type_qualifier(const string& type)
 {
-  if (leadeq(type,"class")) return "class";
-  if (leadeq(type,"struct")) return "struct";
-  if (leadeq(type,"enum class")) return "enum class";
-  if (leadeq(type,"enum")) return "enum";
-  if (leadeq(type,"typename")) return "typename";
+  if (leadeq(type,"class ")) return "class";
+  if (leadeq(type,"struct ")) return "struct";
+  if (leadeq(type,"enum class ")) return "enum class";
+  if (leadeq(type,"enum ")) return "enum";
+  if (leadeq(type,"typename ")) return "typename";
   return string();
 }
 
@@ -1624,7 +1624,7 @@ int main(int argc, char* argv[])
               }
             
             /* For enums, print out a value name table */
-            if (leadeq(actions[i].type,"enum")) 
+            if (type_qualifier(actions[i].type).find("enum")==0) 
               {
                 vector<string>& keys=enum_keys[actions[i].type];
                 {
@@ -1634,7 +1634,7 @@ int main(int argc, char* argv[])
                       printf("template <> EnumKey enum_keysData< %s >::keysData[]=\n {\n",n.c_str());
                       // enum constant qualifier - set blank if enum is global ns
                       string k;
-                      if (leadeq(actions[i].type,"enum class"))
+                      if (type_qualifier(actions[i].type)=="enum class")
                         k=n; // newer enum class constants are in their own namespace
                       else // old enum constants are in the external namespace
                         k=n.find("::")==string::npos? "":
-- 
2.43.0


From 5964471fff5eee1d5dcb9f2316c9770806348ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 054/113] fix: classes in nested namespace definitions were put
 in the enclosing namespace

---
 classdesc.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 626da6b..83c2d33 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1443,6 +1443,7 @@ int main(int argc, char* argv[])
   string targs;
 
   stack<tokeninput::mark_t> namespace_end;
+  stack<string> enclosing_namespace; // of the namespaces in namespace_end
 
   try
     {
@@ -1469,19 +1470,8 @@ int main(int argc, char* argv[])
 	  if (namespace_end.size() && input>namespace_end.top())
 	    /* finished parsing namespace */
 	    {
-	      /* strip trailing :: */
-	      namespace_name.erase(namespace_name.rfind("::"));
-
-	      /* calculate token boundary */
-	      string::size_type p;
-	      if (
-		  (p=namespace_name.rfind("::"))
-                  == string::npos
-		  )
-		p=0;
-	      else
-		p+=2;
-	      namespace_name.erase(p);
+              namespace_name=enclosing_namespace.top();
+              enclosing_namespace.pop();
 	      namespace_end.pop();
 	    }
 	  if (input.token=="namespace")
@@ -1494,11 +1484,18 @@ int main(int argc, char* argv[])
                 {
                   string name=input.token;
                   input.nexttok();
+                  while (input.token=="::") // nested namespace definition
+                    {
+                      input.nexttok();
+                      name+="::"+input.token;
+                      input.nexttok();
+                    }
                   if (input.token=="=") // namespace alias, skip over
                     while (input.token!=";") 
                       input.nexttok();
                   else if (input.token=="{")
                     {
+                      enclosing_namespace.push(namespace_name);
                       namespace_name+=name+"::";
                       tokeninput::mark_t here(input);
                       gobble_delimited(input,"{","}");
-- 
2.43.0


From d0dc135c2ab6e4966a4958ee21ccf55e48055334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 055/113] fix: the namespace of classes defined by a typedef
 was ignored

---
 classdesc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 83c2d33..3bdf7a2 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1506,7 +1506,9 @@ int main(int argc, char* argv[])
             }
 	  /* end namespace support */
 
-	  if (input.token=="typedef") parse_typedef(input);
+	  if (input.token=="typedef")
+            // global names have always been unqualified
+            parse_typedef(input, namespace_name=="::"? "": namespace_name);
 	  if (input.token=="template")
 	    {
 	      input.nexttok();
-- 
2.43.0


From c5931b58506fae9841b2073dfea261f6aae33117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 056/113] fix: nested template arguments closed by >> were read
 too short or too long

---
 tokeninput.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index 784daaa..0ebd0bb 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -288,7 +288,11 @@ string gobble_delimited(tokeninput& input, const char *left,
       if (input.token==">>" && string(left)=="<") 
         {
           delim_count-=2;
-          if (delim_count<=0) break;
+          if (delim_count<0) // as with other delimiters, omit the last
+            {
+              argList.erase(argList.size()-3);
+              break;
+            }
         }
     }
    return argList;
-- 
2.43.0


From 8cd7ba2c737444fc44c76a42984e26c8dc878506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 057/113] fix: with -overload, a class template's name within
 the names of other types was given template arguments

---
 classdesc.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 3bdf7a2..a835612 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -401,20 +401,25 @@ string without_defaults(const string& argList)
 string replaceShornTypes(const string& input, const string& shornType, const string& fullType)
 {
   string r;
-  for (size_t i=0, j=input.find(shornType); i!=string::npos; i=j, j=input.find(shornType,i))
+  for (size_t i=0; i<input.size(); )
     {
-      r+=input.substr(i,j==string::npos? j: j-i);
-      if (j!=string::npos)
+      size_t j=i;
+      while (j<input.size() && isIdentifierChar(input[j])) ++j;
+      if (j==i) // not within an identifier
+        {
+          r+=input[i++];
+          continue;
+        }
+      string name=input.substr(i,j-i);
+      i=j;
+      if (name==shornType)
         {
-          j+=shornType.size();
-          size_t k=j;
           // check if '<' is the next non white space character
-          while (k<input.size() && isspace(input[k])) ++k;
-          if (k>=input.size() || input[k]!='<')
-            r+=fullType;
-          else
-            r+=shornType;
+          while (j<input.size() && isspace(input[j])) ++j;
+          if (j>=input.size() || input[j]!='<')
+            name=fullType;
         }
+      r+=name;
     }
   return r;
 }
-- 
2.43.0


From 880471f893381ca349dfb25ca81495c93feb60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 058/113] fix: malformed templates, namespaces and pragmas
 crashed classdesc or made it hang

---
 classdesc.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index a835612..be8393c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1162,23 +1162,25 @@ string extract_targs(string targs)
 	  else if (*targsptr=='<')  /* skip over stuff between <..> */
 	    {
 	      int angle_count=1;
-	      while (angle_count)
+	      while (angle_count && *targsptr)
 		{
 		  targsptr++;
 		  if (*targsptr=='<') angle_count++;
 		  else if (*targsptr=='>') angle_count--;
 		}
+	      if (!*targsptr) break;    /* unbalanced */
 	    }
 	  else if (*targsptr=='=')
 	    {
 	      for (int angle_count=0;
-		   !strchr(">,",*(targsptr)) || angle_count; targsptr++)
+		   *targsptr && (!strchr(">,",*(targsptr)) || angle_count); targsptr++)
 		if (*targsptr=='<') angle_count++;
 		else if (*targsptr=='>') angle_count--;
               // not sure, but inserting elipsis here might be a C++
               // grammatical error
 	      r+=tok+elipsis+*targsptr;
               elipsis.clear();
+	      if (!*targsptr) break;    /* unbalanced */
 	    }
 	  else if (strchr(">,",*targsptr))  
             {
@@ -1236,7 +1238,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
                 templateSeen.push_back(false);
                 break;
               case '>':
-                templateSeen.pop_back();
+                if (templateSeen.size()>1) templateSeen.pop_back();
                 break;
               case ':':
                 if (*(c+1)==':' && templateSeen.back())
@@ -1457,14 +1459,14 @@ int main(int argc, char* argv[])
 	  input.nexttok();
 	  if (input.token.find("#pragma")==0) /* process pragmas */
 	    {
-	      if (input.token.find("#pragma omit")==0)
-		omit[rm_space(input.token.substr(strlen("#pragma omit ")))]=1;
-	      if (input.token.find("#pragma treenode")==0)
-		treenode[rm_space(input.token.substr(
-                                                     strlen("#pragma treenode ")))]=1;
-	      if (input.token.find("#pragma graphnode")==0)
-		graphnode[rm_space(input.token.substr(
-                                                      strlen("#pragma graphnode ")))]=1;
+	      static const string omitPragma="#pragma omit", treenodePragma="#pragma treenode",
+                graphnodePragma="#pragma graphnode";
+	      if (input.token.find(omitPragma)==0)
+		omit[rm_space(input.token.substr(omitPragma.size()))]=1;
+	      if (input.token.find(treenodePragma)==0)
+		treenode[rm_space(input.token.substr(treenodePragma.size()))]=1;
+	      if (input.token.find(graphnodePragma)==0)
+		graphnode[rm_space(input.token.substr(graphnodePragma.size()))]=1;
 	      continue;
 	    }
 
@@ -1485,7 +1487,7 @@ int main(int argc, char* argv[])
             */
 	    {
 	      input.nexttok();
-              if (input.token!="{") // not anonymous
+              if (isIdentifierStart(input.token[0])) // not anonymous
                 {
                   string name=input.token;
                   input.nexttok();
-- 
2.43.0


From 4150cb63ca77aabd56f3521b3a3efea6d61552e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 059/113] fix: input from a pipe lost classes silently, and an
 input file that cannot be opened crashed

---
 classdesc.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index be8393c..3ae0c5c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1436,6 +1436,24 @@ int main(int argc, char* argv[])
   FILE* inputStream=stdin;
   if (inputFile!="stdin") 
     inputStream=fopen(inputFile.c_str(),"rb");
+  if (!inputStream)
+    {
+      cerr<<"cannot open "<<inputFile<<endl;
+      return 1;
+    }
+  if (fseek(inputStream,0,SEEK_CUR)!=0) // eg a pipe, but the input is read repeatedly
+    {
+      FILE* copy=tmpfile();
+      if (!copy)
+        {
+          cerr<<"cannot create a temporary file"<<endl;
+          return 1;
+        }
+      for (int c; (c=fgetc(inputStream))!=EOF; )
+        fputc(c,copy);
+      rewind(copy);
+      inputStream=copy;
+    }
       
   tokeninput input(inputStream);
 
-- 
2.43.0


From cb6074aeee5f722dcf2fdd8dcddac7e8b538ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 060/113] fix: classes local to functions were described as if
 at namespace scope

---
 classdesc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 3ae0c5c..c1135a5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1529,6 +1529,10 @@ int main(int argc, char* argv[])
                     }
                 }
             }
+          else if (input.token=="{" && 
+                   !(input.tokenBeforeLast=="extern" && input.lasttoken[0]=='"'))
+            // body of a function, or an initializer
+            gobble_delimited(input,"{","}");
 	  /* end namespace support */
 
 	  if (input.token=="typedef")
-- 
2.43.0


From faa955c3c7bdc9a02578d1c3c8435e76d12e1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 061/113] fix: an empty input crashed, and the last line was
 lost if unterminated

---
 tokeninput.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 0ebd0bb..db7afb9 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -25,6 +25,7 @@ class tokeninput
   FILE* outputstream;
   int c;
   int lineno;
+  bool ended; ///< end of file has been met
   char getnextc() 
   {
     c=fgetc(inputstream); 
@@ -57,7 +58,9 @@ class tokeninput
           {ungetc(c,inputstream); c='[';}
         break;
       case EOF:
-        throw eof();
+        if (ended) throw eof();
+        ended=true;
+        c='\n'; // the last line may lack its end
         break;
       }
     if (outputstream &&!feof(inputstream)) 
@@ -68,7 +71,7 @@ public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; getnextc(); lineno=1;}
+  {inputstream=in; outputstream=out; lineno=1; ended=false; getnextc();}
 
   int line() const {return lineno;}
 
-- 
2.43.0


From 9d69e504ccff9ce4ef80f7f6aba86223a27d0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 062/113] fix: white space within () and [], raw strings, digit
 separators, attributes, CRLF continuations, and literals, comments and
 pragmas in preprocessor lines changed what was described

---
 tokeninput.h | 197 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 149 insertions(+), 48 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index db7afb9..30b4950 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -38,25 +38,25 @@ class tokeninput
 
       case '\\': /* check for and remove any line continuations */
         c=fgetc(inputstream); 
+        if (c=='\r') // DOS files
+          {
+            c=fgetc(inputstream);
+            if (c!='\n')
+              {
+                if (c!=EOF) ungetc(c,inputstream);
+                c='\r';
+              }
+          }
         if (c=='\n') 
           {
-            c=fgetc(inputstream); 
+            lineno++;
             if (outputstream) fprintf(outputstream,"\\\n");
+            return getnextc();
           }
-        else {ungetc(c,inputstream); c='\\';}
+        if (c!=EOF) ungetc(c,inputstream);
+        c='\\';
         break;
 
-      case '[':
-        c=fgetc(inputstream); 
-        if (c=='[') // attribute leadin - discard attribute
-          {
-            char lc=c;
-            while ((c=fgetc(inputstream)) != ']' || lc!=']') lc=c;
-            getnextc();
-          }
-        else
-          {ungetc(c,inputstream); c='[';}
-        break;
       case EOF:
         if (ended) throw eof();
         ended=true;
@@ -67,6 +67,125 @@ class tokeninput
       fputc(c,outputstream); 
     return c;
   }
+
+  /* skip the rest of a comment, c being the * or / that follows its first / */
+  void skipComment()
+  {
+    if (c=='/')
+      while (c!='\n') getnextc();
+    else
+      {
+        char lc=getnextc();
+        while (lc!='*' || c!='/')
+          {
+            lc=c;
+            getnextc();
+          }
+        getnextc();  /* load up next character from input stream */
+      }
+  }
+
+  /* append a preprocessor directive to token, without its comments */
+  void directive()
+  {
+    while (c!='\n') 
+      if (c=='/')
+        {
+          getnextc();
+          if (c=='*' || c=='/')
+            skipComment();
+          else
+            token+='/';
+        }
+      else if (c=='"' || c=='\'')
+        literal();
+      else
+        {
+          if (c!='\r') token+=c; //ignore '\r' (DOS files)
+          getnextc();
+        }
+  }
+
+  /* skip white space, comments and preprocessor directives */
+  void skipSpace()
+  {
+    for (;;)
+      if (isspace(c))
+        getnextc();
+      else if (c=='#')
+        {
+          string t=token;
+          directive();
+          token=t;
+        }
+      else if (c=='/')
+        {
+          int next=fgetc(inputstream);
+          if (next!=EOF) ungetc(next,inputstream);
+          if (next!='*' && next!='/') return;
+          getnextc();
+          skipComment();
+        }
+      else
+        return;
+  }
+
+  /* append a string or character literal to token */
+  void literal()
+  {
+    bool escape=false;
+    char terminal=c;
+    do
+      {
+        token+=c;
+        escape=c=='\\' && !escape;
+        getnextc();
+      }
+    while ((c!=terminal || escape) && c!='\n');
+    if (c==terminal)
+      {
+        token+=c;   /* include terminal " */
+        getnextc();
+      }
+  }
+
+  /* append a raw string literal to token. Nothing is special within it, not even line continuations */
+  void rawString()
+  {
+    string delimiter=")";
+    for (token+=c; (c=fgetc(inputstream))!='('; delimiter+=c)
+      {
+        if (c==EOF) throw eof();
+        token+=c;
+      }
+    delimiter+='"';
+    for (string last; last!=delimiter; )
+      {
+        token+=c;
+        c=fgetc(inputstream);
+        if (c==EOF) throw eof();
+        if (c=='\n') lineno++;
+        if (last.size()==delimiter.size()) last.erase(0,1);
+        last+=c;
+      }
+    token+=c;
+    getnextc();
+  }
+
+  /* skip the rest of an attribute, c being its second [ */
+  void skipAttribute()
+  {
+    string t1=lasttoken, t2=tokenBeforeLast;
+    getnextc();
+    for (int depth=2; depth>0; )
+      {
+        nexttok();
+        if (token=="[") depth++;
+        if (token=="]") depth--;
+      }
+    lasttoken=t1;
+    tokenBeforeLast=t2;
+  }
 public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
@@ -95,14 +214,9 @@ public:
     while (isspace(c)) getnextc();
     while (c=='#')
       {
-        while (c!='\n' && !feof(inputstream)) 
-          {
-            if (c!='\r') token+=c; //ignore '\r' (DOS files)
-            if (c=='/' && getnextc()=='*') /* strip comments */
-              for (char l=getnextc(); l!='*' || c!='/'; l=c, getnextc());
-            getnextc();
-          }
-        if (token.find("#pragma")==0) 
+        directive();
+        if (token.find("#pragma omit")==0 || token.find("#pragma treenode")==0 ||
+            token.find("#pragma graphnode")==0) 
           return; /* parse any pragma omits appearing on stdin */
         else
           token.erase();
@@ -111,19 +225,7 @@ public:
     if (feof(inputstream)) throw eof();
 
     if (c=='"' || c=='\'')   /* handle strings and chars */
-      {
-        int escape=0;
-        char terminal=c;
-        do
-          {
-            token+=c;
-            escape=c=='\\' && !escape;
-            getnextc();
-          }
-        while (c!=terminal || escape);
-        token+=c;   /* include terminal " */
-        getnextc();
-      }
+      literal();
     else if (strchr("#\\!@$~(){}[]:;,.?%*|-+=<>^&/",c)) 
       /* operator tokens - 
          treat # and \ as operators, although they're stripped from 
@@ -181,14 +283,21 @@ public:
                  for use with operator */ 
               
             case '[':
+              skipSpace();
               if (c==']')
                 {
                   token+=c;
                   getnextc();
                 }
+              else if (c=='[') // attribute leadin - discard attribute
+                {
+                  skipAttribute();
+                  goto nexttok_again; /* get next token */
+                }
              break;
 
             case '(':
+              skipSpace();
               if (c==')')
                 {
                   token+=c;
@@ -197,22 +306,11 @@ public:
               break;
               
             case '/':  /* check for comments, and remove from input stream */
-              if (c=='*') 
+              if (c=='*' || c=='/')
                 {
-                  lc=getnextc();
-                  while (lc!='*' || c!='/')
-                    {
-                      lc=c;
-                      getnextc();
-                    }
-                  getnextc();  /* load up next character from input stream */
+                  skipComment();
                   goto nexttok_again; /* get next token */
                 }
-              else if (c=='/')
-                {
-                  while (c!='\n') getnextc();
-                  goto nexttok_again; /* get next token */              
-                }
               break;
             }
       }
@@ -223,11 +321,14 @@ public:
       }
     else 
       {
-        while (isalnum(c) || c=='_') 
+        // within a number, ' is a digit separator
+        while (isalnum(c) || c=='_' || (c=='\'' && isdigit(token[0]))) 
           {
             token+=c;
             getnextc();
           }
+        if (c=='"' && (token=="R" || token=="LR" || token=="uR" || token=="UR" || token=="u8R"))
+          rawString();
       }
   }
 };
-- 
2.43.0


From 1c2bbe80ef8ccf34c713e7ec6e9f852c5e734540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 063/113] fix: % of Exclude did not compile

---
 classdesc.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index 68b24c1..f773065 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1025,6 +1025,10 @@ namespace classdesc
     
   };
 
+  template <class T, class U> T mod(T x, U y) {return x%y;}
+  template <class U> float mod(float x, U y) {return std::fmod(x,y);}
+  template <class U> double mod(double x, U y) {return std::fmod(x,y);}
+
   template <class T>
   struct ExcludeFundamental
   {                           
@@ -1104,11 +1108,6 @@ namespace classdesc
   std::ptrdiff_t operator-(T* x, const Exclude<T*> y)
   {return x-static_cast<T*>(y);}
 
-  template <class T, class U> T mod(T x, U y) {return x%y;}
-  template <class U> float mod(float x, U y) {return std::fmod(x,y);}
-  template <class U> double mod(double x, U y) {return std::fmod(x,y);}
-
-
   // handle fundamental types
   template <>
   struct Exclude<bool>
-- 
2.43.0


From 9505ec4aa649b8a9ff3d28ca708b818f8b46407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 064/113] fix: assigning a null pointer to Exclude<T*>
 dereferenced it, and it could not be constructed from an array

---
 classdesc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index f773065..e998d6c 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1081,8 +1081,8 @@ namespace classdesc
     bool operator==(const T* x) const {return val==x;}
     bool operator==(const Exclude<T*>& x) const {return val==x.val;}
     template <class U> bool operator!=(U x) const {return !operator==(x);}
-    template <class U> explicit Exclude(const U& x): val(x) {}  
-    template <class U> const T& operator=(U x) {return *(val=x);} 
+    template <class U> explicit Exclude(U x): val(x) {}  
+    template <class U> T* operator=(U x) {return val=x;} 
     template <class U> operator U() const {return val;}         
     T& operator*() const {return *val;}
     T* operator->() const {return val;} 
-- 
2.43.0


From 98579286959a39ef14551738a8038437e39bbdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 065/113] fix: insert-friend split the token that follows a
 brace, dropped attributes, altered enum classes, and put the declaration into
 nested classes

---
 insert-friend.cc |  6 ++++--
 tokeninput.h     | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/insert-friend.cc b/insert-friend.cc
index ed2191a..5b6e025 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -85,6 +85,8 @@ void insert_friend(tokeninput& input, string prefix, string targs,
   input.nexttok();
   if (input.token=="<") /* template specialisation */
     classname += get_template_args(input);
+  if (input.token=="final")
+    input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       for (;input.token!="{"; input.nexttok() );
@@ -100,7 +102,7 @@ void insert_friend(tokeninput& input, string prefix, string targs,
 	    {
 	      if (input.token=="{") numbraces++; 
 	      if (input.token=="}") numbraces--;
-	      if (input.token==":" && 
+	      if (numbraces==0 && input.token==":" && 
 		  (input.lasttoken=="protected" || input.lasttoken=="private"))
 		goto really_insert_friend;
 	    }
@@ -178,7 +180,7 @@ int main(int argc, char* argv[])
 		}
 	    }
  	  if ((input.token=="class" || input.token=="struct") &&
-	      input.lasttoken!="friend") 
+	      input.lasttoken!="friend" && input.lasttoken!="enum") 
 	    {
 	      input.nexttok();
 #if (defined(__osf__) && !defined(__GNUC__))
diff --git a/tokeninput.h b/tokeninput.h
index 30b4950..0a7a610 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -26,8 +26,16 @@ class tokeninput
   int c;
   int lineno;
   bool ended; ///< end of file has been met
+  int unechoed; ///< character yet to be written to outputstream, EOF if none
+  /* copy ch to outputstream, once the characters following it are asked for */
+  void echo(int ch)
+  {
+    if (outputstream && unechoed!=EOF) fputc(unechoed,outputstream);
+    unechoed=ch;
+  }
   char getnextc() 
   {
+    bool dos=false;
     c=fgetc(inputstream); 
     switch (c)
       {
@@ -40,6 +48,7 @@ class tokeninput
         c=fgetc(inputstream); 
         if (c=='\r') // DOS files
           {
+            dos=true;
             c=fgetc(inputstream);
             if (c!='\n')
               {
@@ -50,7 +59,9 @@ class tokeninput
         if (c=='\n') 
           {
             lineno++;
-            if (outputstream) fprintf(outputstream,"\\\n");
+            echo('\\');
+            if (dos) echo('\r');
+            echo('\n');
             return getnextc();
           }
         if (c!=EOF) ungetc(c,inputstream);
@@ -60,11 +71,11 @@ class tokeninput
       case EOF:
         if (ended) throw eof();
         ended=true;
+        echo(EOF);
         c='\n'; // the last line may lack its end
         break;
       }
-    if (outputstream &&!feof(inputstream)) 
-      fputc(c,outputstream); 
+    if (!ended) echo(c);
     return c;
   }
 
@@ -156,14 +167,17 @@ class tokeninput
     for (token+=c; (c=fgetc(inputstream))!='('; delimiter+=c)
       {
         if (c==EOF) throw eof();
+        echo(c);
         token+=c;
       }
+    echo(c);
     delimiter+='"';
     for (string last; last!=delimiter; )
       {
         token+=c;
         c=fgetc(inputstream);
         if (c==EOF) throw eof();
+        echo(c);
         if (c=='\n') lineno++;
         if (last.size()==delimiter.size()) last.erase(0,1);
         last+=c;
@@ -190,7 +204,7 @@ public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; lineno=1; ended=false; getnextc();}
+  {inputstream=in; outputstream=out; lineno=1; ended=false; unechoed=EOF; getnextc();}
 
   int line() const {return lineno;}
 
-- 
2.43.0


From c00361c03f87ea34b648c2d3283ca611b31c56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 066/113] fix: MultiArray with a zero last dimension in C++17
 divides by zero

---
 multiArray.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index 0feacac..ca70eda 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -32,16 +32,15 @@ namespace classdesc
 #if defined(__cplusplus) && __cplusplus>=201703L
     void constructDim(size_t& d, size_t dd)
     {
+      // the stride is the product of all dimensions but the last
+      if (d>0) m_stride*=dim[d-1];
       dim[d++]=dd;
-      m_stride*=dd;
     }
     template <class... Args>
     void constructDims(size_t d, Args... args)
     {
       m_stride=1;
       (constructDim(d,args),...);
-      // fold expression multiplies m_stride by one too many dimensions
-      if (d>0) m_stride/=dim[d-1];
     }
 #else
 
-- 
2.43.0


From a744473ac3764aa984106c88d43dee03720db812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 067/113] fix: strides of a MultiArray given a vector of
 dimensions, and access to elements of non-const ones of rank above 2

---
 multiArray.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index ca70eda..9427e6c 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -65,9 +65,9 @@ namespace classdesc
     /// Create a MultiArray given data and dimensions passed as arguments
     /// 
     template <class... Args>
-    MultiArray(T* data, Args... args): m_data(data)
+    MultiArray(T* data, size_t d1, Args... args): m_data(data)
     {
-      constructDims(0, args...);
+      constructDims(0, d1, args...);
     }
     /// Create a MultiArray given data and vector of dimensions:
     /// @param must be of length \prod_i a_dim[i]
@@ -75,6 +75,7 @@ namespace classdesc
     MultiArray(T* data, const size_t a_dim[]): m_data(data)
     {
       memcpy(dim, a_dim, sizeof(dim));
+      for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
     }
     
     size_t size() const {return dim[Rank-1];}
-- 
2.43.0


From 6a134877b086a89278287594628db705de3efd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 068/113] fix: BinStream reading lists, sets and maps appends
 to their previous contents

---
 pack_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 08b7f9e..2b1824d 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -406,6 +406,7 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
+      o.clear();
       typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
@@ -421,6 +422,7 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
+      o.clear();
       typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
-- 
2.43.0


From babeb433cdb0286ab3b399d943f06f9aa5e5ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 069/113] fix: BinStream cannot read a std::array

---
 pack_base.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 2b1824d..e25ef9e 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -438,6 +438,19 @@ namespace classdesc
 
     template <class T, class A> 
     inline BinStream& operator>>(std::vector<T,A>& o);
+
+#if defined(__cplusplus) && __cplusplus>=201103L
+    /// specialisation for array
+    template <class T, size_t N>
+    BinStream& operator>>(std::array<T,N>& o)
+    {
+      size_t s;
+      (*this)>>s;
+      if (s!=N) throw pack_error("invalid size for array");
+      for (size_t i=0; i<N; ++i) (*this)>>o[i];
+      return *this;
+    }
+#endif
     
   };
 
-- 
2.43.0


From 4c78102b8527a455166f3b3652f407a5c56afb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 070/113] fix: noexcept functions and methods are not
 recognised by functional reflection in C++17

---
 function.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/function.h b/function.h
index ca65ee2..60179b5 100644
--- a/function.h
+++ b/function.h
@@ -325,6 +325,39 @@ namespace classdesc
       static const bool value=true;
     };
 
+#if defined(__cplusplus) && __cplusplus>=201703L
+    // noexcept is part of the type from C++17
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_const_method<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+#endif
+
     // true if C is non const, or M is a const member function or static
     template <class C, class M>
     struct ConstCorrect: public
-- 
2.43.0


From bd0ce74560ed9744cf3b80fffe63dd9c7e4998c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 071/113] fix: a factory can be used with any type of
 identifier in C++98

make_pair was found for identifiers from namespace std only.
---
 factory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factory.h b/factory.h
index 39c3a43..f422d17 100644
--- a/factory.h
+++ b/factory.h
@@ -38,7 +38,7 @@ namespace classdesc
     void registerType(const Type& t)
     {
       fmap.insert
-        (make_pair(t, shared_ptr<CreatorBase>(new Creator<T>)));
+        (std::make_pair(t, shared_ptr<CreatorBase>(new Creator<T>)));
     }
     /// convenience method for registering a type. 
     template <class T> void registerType()
-- 
2.43.0


From 395f77e1524d9d711ecf67f60d3387fc17100b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 072/113] fix: unpacking a null shared pointer to an object
 leaves it null

The previous target was kept.
---
 object.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/object.h b/object.h
index 53ef9aa..5b253bf 100644
--- a/object.h
+++ b/object.h
@@ -131,6 +131,8 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 #endif
       a->unpack(b);
     }
+  else
+    a.reset();
 }
 
 template <class T> typename
-- 
2.43.0


From a1ddcbf6895a9499017d12159561743c327fabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 073/113] fix: assigning a poly to itself or to its own object

The object was deleted before it was cloned.
---
 poly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly.h b/poly.h
index 39f34ad..34c52f6 100644
--- a/poly.h
+++ b/poly.h
@@ -54,9 +54,9 @@ namespace classdesc
     poly(): item(NULL) {}
     poly(const poly& x) {asg(x);}
     poly(const T& x) {item=dynamic_cast<T*>(x.clone()); }
-    poly& operator=(const poly& x)  {delete item; asg(x); return *this;}
+    poly& operator=(const poly& x)  {poly tmp(x); swap(tmp); return *this;}
     poly& operator=(const T& x) {
-      delete item; item=dynamic_cast<T*>(x.clone()); return *this;}  
+      poly tmp(x); swap(tmp); return *this;}  
     ~poly() {delete item;}
 
     //@{ 
-- 
2.43.0


From a09b9b6af32e88acf7ac49752a63c6b03bc5100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 074/113] fix: unpacking an empty poly empties the target

The previous object was kept.
---
 poly.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poly.h b/poly.h
index 34c52f6..25536ae 100644
--- a/poly.h
+++ b/poly.h
@@ -185,6 +185,8 @@ namespace classdesc_access
             a=a.TypeTable[type];
           a->unpack(t);
         }
+      else
+        a=U();
     }
   };
 
-- 
2.43.0


From 6096d00861cd3adb60d87fa9d0fc3c7f2c1411ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 075/113] fix: unpacking a null pointer into a weak pointer
 with a live target

The null pointer was dereferenced.
---
 polyAccessPack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polyAccessPack.h b/polyAccessPack.h
index 7b860ef..fe92645 100644
--- a/polyAccessPack.h
+++ b/polyAccessPack.h
@@ -120,7 +120,8 @@ namespace classdesc_access
       cd::shared_ptr<T> tmp;
       unpack_smart_ptr(x,d,tmp);
       if (cd::shared_ptr<T> target=a.lock())
-        *target=*tmp;   // best effort, polymorphism not supported
+        if (tmp.get())
+          *target=*tmp;   // best effort, polymorphism not supported
     }
   };
 
-- 
2.43.0


From 51a9e3d1dd7780ba6d9b184d44adab295a6c8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 076/113] fix: Java class file u2 and u8 are unsigned and 64
 bit

---
 javaClass.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/javaClass.h b/javaClass.h
index bda8478..c2ffd28 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -48,12 +48,12 @@ namespace classdesc
   struct u2
   {
     unsigned short v;
-    operator short() const {return v;}
+    operator unsigned short() const {return v;}
     u2(): v(0) {}
-    u2(short v): v(v) {}
-    short operator=(short x) {return v=x;}
-    short operator|=(short x) {return v|=x;}
-    short operator&=(short x) {return v&=x;}
+    u2(unsigned short v): v(v) {}
+    unsigned short operator=(unsigned short x) {return v=x;}
+    unsigned short operator|=(unsigned short x) {return v|=x;}
+    unsigned short operator&=(unsigned short x) {return v&=x;}
     bool operator==(const u2& x)  const {return v==x.v;}
     u2 operator++() {v++; return *this;}
   };
@@ -73,8 +73,8 @@ namespace classdesc
     unsigned long long v;
     operator long long() const {return v;}
     u8(): v(0) {}
-    u8(unsigned v): v(v) {}
-    unsigned operator=(unsigned x) {return v=x;}
+    u8(unsigned long long v): v(v) {}
+    unsigned long long operator=(unsigned long long x) {return v=x;}
     bool operator==(const u8& x)  const {return v==x.v;}
   };
 
-- 
2.43.0


From 997354b4911818ca8ae6986b6cc2aef4c617de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 077/113] fix: constants of Java 7 and later class files;
 reject unknown constants

---
 javaClass.h               | 20 +++++++++++++++++++-
 javaClass_serialisation.h | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/javaClass.h b/javaClass.h
index c2ffd28..9c60a88 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -138,7 +138,13 @@ enum {
     JVM_CONSTANT_Fieldref               = 9,
     JVM_CONSTANT_Methodref              = 10,
     JVM_CONSTANT_InterfaceMethodref     = 11,
-    JVM_CONSTANT_NameAndType            = 12
+    JVM_CONSTANT_NameAndType            = 12,
+    JVM_CONSTANT_MethodHandle           = 15,
+    JVM_CONSTANT_MethodType             = 16,
+    JVM_CONSTANT_Dynamic                = 17,
+    JVM_CONSTANT_InvokeDynamic          = 18,
+    JVM_CONSTANT_Module                 = 19,
+    JVM_CONSTANT_Package                = 20
 };
 
 /* StackMapTable type item numbers */
@@ -614,6 +620,18 @@ enum {
         descriptor_index==x.descriptor_index;}    
   };
 
+  struct MethodHandleInfo
+  {
+    u1 reference_kind;
+    u2 reference_index;
+    MethodHandleInfo(): reference_kind(0) {}
+    MethodHandleInfo(u1 reference_kind, u2 reference_index):
+      reference_kind(reference_kind), reference_index(reference_index) {}
+    bool operator==(const MethodHandleInfo& x)  const {
+      return reference_kind==x.reference_kind && 
+        reference_index==x.reference_index;}    
+  };
+
   class cp_info
   {
     u1 _tag;
diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 86a9f05..59c079f 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -158,10 +158,15 @@ namespace classdesc_access
         {
         case JVM_CONSTANT_Class:
         case JVM_CONSTANT_String: 
+        case JVM_CONSTANT_MethodType:
+        case JVM_CONSTANT_Module:
+        case JVM_CONSTANT_Package:
           pack(buf,d,a.get<u2>()); break;
         case JVM_CONSTANT_Fieldref: 
         case JVM_CONSTANT_Methodref: 
         case JVM_CONSTANT_InterfaceMethodref: 
+        case JVM_CONSTANT_Dynamic:
+        case JVM_CONSTANT_InvokeDynamic:
           pack(buf,d,a.get<Ref>()); break;
         case JVM_CONSTANT_Integer:
         case JVM_CONSTANT_Float: 
@@ -172,6 +177,9 @@ namespace classdesc_access
         case JVM_CONSTANT_NameAndType: 
           pack(buf,d,a.get<NameAndTypeInfo>()); 
           break;
+        case JVM_CONSTANT_MethodHandle:
+          pack(buf,d,a.get<MethodHandleInfo>()); 
+          break;
         case JVM_CONSTANT_Utf8: 
           pack(buf,d,a.get<std::string>()); break;
         }       
@@ -190,10 +198,15 @@ namespace classdesc_access
         {
         case JVM_CONSTANT_Class:
         case JVM_CONSTANT_String: 
+        case JVM_CONSTANT_MethodType:
+        case JVM_CONSTANT_Module:
+        case JVM_CONSTANT_Package:
           a.unpack<u2>(buf,tag); break;
         case JVM_CONSTANT_Fieldref: 
         case JVM_CONSTANT_Methodref: 
         case JVM_CONSTANT_InterfaceMethodref: 
+        case JVM_CONSTANT_Dynamic:
+        case JVM_CONSTANT_InvokeDynamic:
           a.unpack<Ref>(buf,tag); break;
         case JVM_CONSTANT_Integer:
         case JVM_CONSTANT_Float: 
@@ -204,8 +217,14 @@ namespace classdesc_access
         case JVM_CONSTANT_NameAndType: 
           a.unpack<NameAndTypeInfo>(buf,tag); 
           break;
+        case JVM_CONSTANT_MethodHandle:
+          a.unpack<MethodHandleInfo>(buf,tag); 
+          break;
         case JVM_CONSTANT_Utf8: 
           a.unpack<std::string>(buf,tag); break;
+        default:
+          // the rest of the file cannot be made sense of
+          throw pack_error("unknown constant in Java class file");
         }       
     }
   };
-- 
2.43.0


From 2e5b6adbdeca7c946783e87cac5bfca0ad7e83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 078/113] fix: long and double constants of a Java class file
 take two entries

---
 javaClass.h               |  3 +++
 javaClass_serialisation.h | 14 +++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/javaClass.h b/javaClass.h
index 9c60a88..123bdd6 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -669,6 +669,9 @@ enum {
     const T& get() const {return *static_cast<const T*>(info.get());}
 
     u1 tag() const {return _tag;}
+    /// true if this constant occupies two entries of the constant pool
+    bool twoEntries() const 
+    {return _tag==JVM_CONSTANT_Long || _tag==JVM_CONSTANT_Double;}
     bool operator==(const cp_info& x) const; //definition in javaClass_serialisation.h
   };
 
diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 59c079f..f43626e 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -239,7 +239,11 @@ namespace classdesc_access
       classdesc::u2 size=a.size(); 
       pack(buf,d,size);
       for (int i=1; i<size; i++)
-        pack(buf,d,a[i]);
+        {
+          pack(buf,d,a[i]);
+          // the entry after one of these is not used, and not serialised
+          if (a[i].twoEntries()) i++;
+        }
     }
   };
 
@@ -250,9 +254,13 @@ namespace classdesc_access
     void operator()(classdesc::pack_t& buf, const classdesc::string& d, std::vector<classdesc::cp_info>& a)
     {
       classdesc::u2 size; unpack(buf,d,size);
-      a.resize(size);
+      a.assign(size,classdesc::cp_info());
       for (int i=1; i<size; i++)
-        unpack(buf,d,a[i]);
+        {
+          unpack(buf,d,a[i]);
+          // the entry after one of these is not used, and not serialised
+          if (a[i].twoEntries()) i++;
+        }
     }
   };
 
-- 
2.43.0


From ebb75e2ee684b1e540fd31a103b2507e06dd1d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 079/113] fix: element counts in a Java class file are 2 bytes

---
 javaClass_serialisation.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index f43626e..8da4fea 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -30,9 +30,35 @@ namespace classdesc
   template <> void dump(dump_t& buf, const string& d, const u1& a)
   {buf << std::hex << int(a);}
 
+  // the number of elements is a 2 byte field
+  template <class T> 
+  void pack(pack_t& buf, const string& d, const JavaClassVector<T>& a)
+  {
+    pack(buf,d,u2(a.size()));
+    for (typename std::vector<T>::const_iterator i=a.begin(); i!=a.end(); ++i)
+      pack(buf,d,*i);
+  }
+
+  template <class T> 
+  void unpack(unpack_t& buf, const string& d, JavaClassVector<T>& a)
+  {
+    u2 size;
+    unpack(buf,d,size);
+    a.clear();
+    for (int i=0; i<size; i++)
+      {
+        T x;
+        unpack(buf,d,x);
+        a.push_back(x);
+      }
+  }
+
 }
  
 
+using classdesc::pack;
+using classdesc::unpack;
+
 namespace classdesc_access
 {
 /*
-- 
2.43.0


From b8a76ac65eb178a90fba82e6231c1b6c3ab78ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 080/113] fix: reading a string constant cut short leaks

---
 javaClass_serialisation.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 8da4fea..3d00e51 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -84,10 +84,8 @@ namespace classdesc_access
     {
       classdesc::u2 length; 
       unpack(buf,d,length);
-      char *s=new char[length];
-      buf.unpackraw(s,length);
-      a=std::string(s,length);
-      delete [] s;
+      a.resize(length);
+      if (length) buf.unpackraw(&a[0],length);
     }
   };
 
-- 
2.43.0


From 0d1e8f4b50a443eec142c91e11f0da8d92663214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 081/113] fix: array members made the method that follows
 static

---
 classdesc.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index c1135a5..a90cfe8 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -965,13 +965,6 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  is_template=false;
 	}
 
-      if (input.token==";") /* end of declaration */
-        {
-          reg.is_static=reg.is_const=false;
-          is_template=false;
-        }
-
-
       /* array member type */
       if (input.token=="[")
 	{
@@ -1004,6 +997,12 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  reg.register_class(name,name,action);
 	}
 
+      if (input.token==";") /* end of declaration */
+        {
+          reg.is_static=reg.is_const=false;
+          is_template=false;
+        }
+
       if (input.token=="{")  /* skip function/enum/whatever definitions */
         {
           gobble_delimited(input,"{","}");
-- 
2.43.0


From d5443bb5cb8d7c24a7b9eb4a0a712def416eb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 082/113] fix: members that are pointers to arrays hid what
 follows them

---
 classdesc.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index a90cfe8..4a43653 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -874,6 +874,19 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		  memname=input.token;
                   is_pointer=true;
 		  gobble_delimited(input,"(",")");
+                  input.nexttok();
+                  if (input.token=="[") /* pointer to an array */
+                    {
+                      if (isIdentifierStart(memname[0]))
+                        reg.register_class
+                          (memname,use_mbr_pointers? varname: "",
+                           use_mbr_pointers? "&"+prefix+memname: varname+"."+memname);
+                      rType.erase();
+                      while (!strchr(",;=",input.token[0])) input.nexttok();
+                      if (input.token==";") reg.is_static=reg.is_const=false;
+                      skip_initializer(input);
+                      continue;
+                    }
 		  while (input.token[0]!='(') input.nexttok();
 		  gobble_delimited(input,"(",")");
 		}
-- 
2.43.0


From 0aabbf9ee9f8e54a882d78b2fe861f7ba6f6aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 083/113] fix: no descriptor accepted classes with static const
 arrays

---
 classdesc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 4a43653..11a3e4b 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1007,7 +1007,11 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           action += action2;
 	  if (!objc) action.erase(action.size()-1,1); /* remove trailing "," */
           else  action+="\"";
+          // a static const array does have an address
+          bool isConst=reg.is_const;
+          reg.is_const=false;
 	  reg.register_class(name,name,action);
+          reg.is_const=isConst;
 	}
 
       if (input.token==";") /* end of declaration */
-- 
2.43.0


From 45fbead1a1c3e09dcc9e5fbca9479dfb5abed26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 084/113] fix: dummy definitions were made of classes that are
 defined

---
 classdesc.cc | 66 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 11a3e4b..11c1fc6 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -200,20 +200,55 @@ typedef hash_set<string> virt_list_t;
 hash_map<string,virt_list_t> virtualsdb;
 string namespace_name="::";
 
-/* type_defined[class]=1 if defined, else 0 if only declared */
-struct type_defined_t: hash_map<string,int>
+/* type_defined[class].is_defined if defined, rather than only
+   declared. Classes are identified by their qualified names */
+struct type_defined_t
 {
-  void defined(string name) {(*this)[name]=1; }
-  void declared(string name)
+  struct Type 
+  {
+    bool is_defined; 
+    string nameSpace; // in which it is declared
+    Type(): is_defined(false) {}
+  };
+  typedef map<string,Type> Map;
+  Map types;
+  static string key(const string& name)
+  {return name.compare(0,2,"::")==0? name.substr(2): name;}
+  void defined(const string& name) {types[key(name)].is_defined=true;}
+  // isNew is false for an elaborated type specifier, which may refer
+  // to a class of an enclosing scope
+  void declared(string name, bool isNew)
   {
-    /* strip class qualifiers */
-    if (name.rfind("::")!=name.npos)
-      name=name.substr(name.rfind("::")+2);
     /* don't register template declarations */
     if (name.find("<")!=name.npos) return;
-
-    if (count(name)==0 || !(*this)[name])
-      {	(*this)[name]=0; }
+    if (!isNew)
+      {
+        name=key(name);
+        string::size_type p=name.rfind("::");
+        string simple=name.substr(p==name.npos? 0: p+2);
+        for (; p!=name.npos; p=p? name.rfind("::",p-1): name.npos)
+          if (types.count(name.substr(0,p+2)+simple)) return;
+        if (types.count(simple)) return;
+        name=namespace_name+simple;
+      }
+    Type& type=types[key(name)];
+    if (!type.is_defined) type.nameSpace=namespace_name;
+  }
+  // make kludge definitions for all declared classes that aren't defined
+  void defineDeclared()
+  {
+    for (Map::iterator i=types.begin(); i!=types.end(); ++i)
+      if (!i->second.is_defined)
+        {
+          string ns=key(i->second.nameSpace), close;
+          string name=i->first.substr(ns.length());
+          for (string::size_type p; (p=ns.find("::"))!=ns.npos; ns=ns.substr(p+2))
+            {
+              printf("namespace %s { ",ns.substr(0,p).c_str());
+              close+=" }";
+            }
+          printf("class %s {};%s\n",name.c_str(),close.c_str());
+        }
   }
 } type_defined;
 
@@ -1090,7 +1125,7 @@ void parse_typedef(tokeninput& input, string prefix)
       if (isIdentifierStart(input.token[0])) structname=input.token;
       while (!strchr(";:{",input.token[0])) input.nexttok();
       if (input.token==";")
-	{type_defined.declared(structname); return;} /* nothing to be done */
+	{type_defined.declared(prefix+structname,false); return;} /* nothing to be done */
       try {name=prefix+get_typedef_name(input);}
       catch (is_ptr)   /* the buggers have declared a pointer to */
 	{              /*  an anonymous struct data type */
@@ -1126,7 +1161,7 @@ void parse_typedef(tokeninput& input, string prefix)
       // preference to the typedef name - see ticket #11
       if (!structname.empty()) name=prefix+structname;
       actionlist=parse_class(input,is_class,name+"::");
-      type_defined.defined(structname);
+      type_defined.defined(prefix+structname);
       actions.push_back(action_t(name,actionlist,namespace_name));
     }
   else if (input.token=="union")
@@ -1266,7 +1301,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
         }
       type_defined.defined(classname);
     }
-  else  type_defined.declared(classname);
+  else  type_defined.declared(classname,input.token==";");
 }
 
 
@@ -1604,10 +1639,7 @@ int main(int argc, char* argv[])
 
   /* make kludge definitions for all declared classes that aren't defined */
   if (def)
-    for (type_defined_t::iterator i=type_defined.begin();
-	 i!=type_defined.end(); i++)
-      if (!i->second)
-	printf("class %s {};\n",i->first.c_str());
+    type_defined.defineDeclared();
 
   for (unsigned k=0; k<nactions; k++)
     printf("#include \"%s_base.h\"\n",action[k]);
-- 
2.43.0


From b16f4fa59959a3031f0ac0477e8dd79c8a04852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 085/113] fix: definitions written to -workdir differed from
 the inline ones

---
 classdesc.cc | 228 ++++++++++++++++++++++-----------------------------
 1 file changed, 98 insertions(+), 130 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 11c1fc6..de93b87 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1372,13 +1372,13 @@ string without_type_qualifier(const string& type)
   return without_type_qualifier(type,type_qualifier(type));
 }
 
-void printNestedTypes(string scope, bool templ, set<string> avoid=set<string>())
+void printNestedTypes(FILE* o, string scope, bool templ, set<string> avoid=set<string>())
 {
   vector<string>& nestedTypes=nested[scope+"::"];
   for (vector<string>::iterator j=nestedTypes.begin(); j!=nestedTypes.end(); j++)
     {
       if (!avoid.count(*j))
-        printf("typedef %s %s::%s %s;\n",
+        fprintf(o,"typedef %s %s::%s %s;\n",
                templ? "typename": "",
                scope.c_str(), j->c_str(), j->c_str());
       avoid.insert(*j);
@@ -1389,7 +1389,7 @@ void printNestedTypes(string scope, bool templ, set<string> avoid=set<string>())
     {
       scope=scope.substr(0,p);
       if (scope!="::")
-        printNestedTypes(scope,false,avoid);
+        printNestedTypes(o,scope,false,avoid);
     }
 }
 
@@ -1819,86 +1819,10 @@ int main(int argc, char* argv[])
             }
 
             /* scalar forward function */
-            if (workdir.length()==0 || !actions[i].templ.empty())
-              /* templates must be inline */
-              {
-                /* deal with graphnode/treenode possibilities */
-                if (is_treenode)
-                  output_treenode_or_graphnode(action[k],i,"is_treenode()");
-                if (is_graphnode)
-                  output_treenode_or_graphnode(action[k],i,"is_graphnode()");
-
-                // insert the namespace qualifier if needed
-                string type_arg_name;
-                type_arg_name = (type_qualifier(actions[i].type)=="enum class")?
-                  "enum": type_qualifier(actions[i].type);
-                type_arg_name+=" "+/*" ::"+actions[i].namespace_name+
-                                 (actions[i].namespace_name.size()?"::":"") +*/ 
-                  without_type_qualifier(actions[i].type);
-
-                printf("template %s struct access_%s< %s > {\n",
-                       actions[i].templ.empty()? "<>": actions[i].templ.c_str(),
-                       action[k], type_arg_name.c_str()); 
-                printf("template <class _CD_ARG_TYPE>\n");
-                printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg)\n{\n",
-                       action[k]);
-
-                if (actions[i].namespace_name.size())
-                  printf("using namespace %s;\n",actions[i].namespace_name.c_str());
-                string prefix=without_type_qualifier(actions[i].type);
-                printNestedTypes(prefix,!actions[i].templ.empty());
-                
-                vector<MemberSig>& tempVarDecls=overloadTempVarDecls[prefix+"::"];
-                for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
-                  printf("%s\n",tempVarDecls[ii].declare().c_str());
-                for (size_t j=0; j<actions[i].actionlist.size(); j++)
-                  {
-                    string a=action[k];
-                    const act_pair& aj=actions[i].actionlist[j];
-                    if (aj.base)
-                      a+="_onbase";
-                    if (aj.member.length() && !aj.base && aj.action.find("classdesc::is_array")!=0)
-                      printf("::%s(targ,desc+\"%s\",%s,%s);\n",a.c_str(),
-                             aj.name.c_str(),aj.member.c_str(),aj.action.c_str());
-                    else if (aj.action.find("classdesc::is_constructor")==string::npos)
-                      printf("::%s(targ,desc+\"%s\",%s);\n",a.c_str(),
-                             aj.name.c_str(),aj.action.c_str());
-                  }
-                printf("}\n");
-                printf("template <class _CD_TYPE>\n");
-                printf("void type(classdesc::%s_t& targ, const classdesc::string& desc)\n{\n",action[k]);
-                if (actions[i].namespace_name.size())
-                  printf("using namespace %s;\n",actions[i].namespace_name.c_str());
-                printNestedTypes(prefix,!actions[i].templ.empty());
-                
-                for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
-                  printf("%s\n",tempVarDecls[ii].declare().c_str());
-                for (size_t j=0; j<actions[i].actionlist.size(); j++)
-                  {
-                    const act_pair& aj=actions[i].actionlist[j];
-                    if (aj.base)
-                      printf("::%s<_CD_TYPE,%s >(targ,desc+\"%s\");\n",
-                             action[k], aj.member.c_str(),
-                             aj.name.c_str());
-                    // only emit actions that are member pointers or base classes
-                    else if ((aj.action[0]=='&' && aj.action.find("::")) ||
-                             aj.action.find("TmpMemPtr_")==0 ||
-                             aj.action.find("classdesc::is_constructor")==0)
-                      printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
-                             action[k], type_arg_name.c_str(),
-                             aj.name.c_str(),aj.action.c_str());
-                    else if (aj.action.find("classdesc::is_array")==0 && aj.member.length())
-                      printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",&%s::%s);\n",
-                             action[k], type_arg_name.c_str(),
-                             aj.name.c_str(),without_type_qualifier(type_arg_name).c_str(),aj.member.c_str());
-                    else if (aj.action.find("classdesc::is_const_static")==0 && use_mbr_pointers)
-                      printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
-                             action[k], type_arg_name.c_str(),aj.name.c_str(),aj.action.c_str());
-                      
-                  }
-                printf("}\n};\n");
-              }
-            else
+            /* templates must be inline */
+            bool inlineDef=workdir.length()==0 || !actions[i].templ.empty();
+            FILE *o=stdout; // where the definition of the functor is written
+            if (!inlineDef)
               {
                 string oname=actions[i].type;
                 /* replace non-alphanumeric characters with underscores */
@@ -1906,66 +1830,77 @@ int main(int argc, char* argv[])
                 for (size_t l=0; l<oname.length(); l++)
                   if (!isalnum(oname[l])) oname[l]='_';
                 oname=workdir+oname+".cc";
-                FILE *o=fopen(oname.c_str(),"a");
+                o=fopen(oname.c_str(),"a");
+                if (!o)
+                  {
+                    cerr << "cannot write to " << oname << endl;
+                    return 1;
+                  }
                 if (stdinclude.length() && !header_written.count(oname))
                   {
                     fprintf(o,"#include \"%s\"\n",stdinclude.c_str());
                     header_written[oname]=1;
                   }
                 fprintf(o,"#include \"%s_base.h\"\n",action[k]);
-                /* deal with graphnode/treenode possibilities */
-                if (is_treenode)
-                  output_treenode_or_graphnode(action[k],i,"is_treenode()");
-                if (is_graphnode)
-                  output_treenode_or_graphnode(action[k],i,"is_graphnode()");
-
-                // insert the namespace qualifier if needed
-                string type_arg_name;
-                type_arg_name=type_qualifier(actions[i].type)+" "+
-                  /*+" ::"+actions[i].namespace_name+
-                    (actions[i].namespace_name.size()?"::":"") +*/ 
-                  without_type_qualifier(actions[i].type);
-              
-                printf("template %s struct access_%s< %s > {\n",
-                       actions[i].templ.empty()? "<>": actions[i].templ.c_str(),
-                       action[k], type_arg_name.c_str()); 
-                printf("template <class _CD_ARG_TYPE>\n");
-                printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg);\n};",
-                       action[k]);
+              }
 
+            /* deal with graphnode/treenode possibilities */
+            if (is_treenode)
+              output_treenode_or_graphnode(action[k],i,"is_treenode()");
+            if (is_graphnode)
+              output_treenode_or_graphnode(action[k],i,"is_graphnode()");
+
+            // insert the namespace qualifier if needed
+            string type_arg_name;
+            type_arg_name = (type_qualifier(actions[i].type)=="enum class")?
+              "enum": type_qualifier(actions[i].type);
+            type_arg_name+=" "+/*" ::"+actions[i].namespace_name+
+                             (actions[i].namespace_name.size()?"::":"") +*/ 
+              without_type_qualifier(actions[i].type);
+
+            printf("template %s struct access_%s< %s > {\n",
+                   actions[i].templ.empty()? "<>": actions[i].templ.c_str(),
+                   action[k], type_arg_name.c_str()); 
+            printf("template <class _CD_ARG_TYPE>\n");
+            if (inlineDef)
+              printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg)\n{\n",
+                     action[k]);
+            else
+              {
+                printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg);\n",
+                       action[k]);
                 fprintf(o,"template <class _CD_ARG_TYPE>\n");
                 fprintf(o,"void classdesc_access::access_%s< %s >::",
                         action[k], type_arg_name.c_str()); 
                 fprintf(o,"operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg)\n{\n",
                         action[k]);
+              }
 
-                if (actions[i].namespace_name.size())
-                  fprintf(o,"using namespace %s;\n",actions[i].namespace_name.c_str());
-                string::size_type p=actions[i].type.rfind("::");
-                if (p!=string::npos)
-                  {
-                    string::size_type s=actions[i].type.rfind(" "); //strip leading words
-                    if (s==string::npos) 
-                      s=0;
-                    else
-                      s++;
-                    string prefix=actions[i].type.substr(s,p+2-s);
-                    for (size_t j=0; j<nested[prefix].size(); j++)
-                      fprintf(o,"typedef %s %s%s %s;\n",
-                              actions[i].templ.empty()? "": "typename",
-                              prefix.c_str(),
-                              nested[prefix][j].c_str(),nested[prefix][j].c_str());
-                  }
-                for (size_t j=0; j<actions[i].actionlist.size(); j++)
-                  {
-                    string a=action[k];
-                    if (actions[i].actionlist[j].base)
-                      a+="_onbase";
-                    fprintf(o,"::%s(targ,desc+\"%s\",%s);\n",a.c_str(),
-                            actions[i].actionlist[j].name.c_str(),
-                            actions[i].actionlist[j].action.c_str());
-                  }
-                fprintf(o,"};\n");
+            if (actions[i].namespace_name.size())
+              fprintf(o,"using namespace %s;\n",actions[i].namespace_name.c_str());
+            string prefix=without_type_qualifier(actions[i].type);
+            printNestedTypes(o,prefix,!actions[i].templ.empty());
+                
+            vector<MemberSig>& tempVarDecls=overloadTempVarDecls[prefix+"::"];
+            for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
+              fprintf(o,"%s\n",tempVarDecls[ii].declare().c_str());
+            for (size_t j=0; j<actions[i].actionlist.size(); j++)
+              {
+                string a=action[k];
+                const act_pair& aj=actions[i].actionlist[j];
+                if (aj.base)
+                  a+="_onbase";
+                if (aj.member.length() && !aj.base && aj.action.find("classdesc::is_array")!=0)
+                  fprintf(o,"::%s(targ,desc+\"%s\",%s,%s);\n",a.c_str(),
+                          aj.name.c_str(),aj.member.c_str(),aj.action.c_str());
+                else if (aj.action.find("classdesc::is_constructor")==string::npos)
+                  fprintf(o,"::%s(targ,desc+\"%s\",%s);\n",a.c_str(),
+                          aj.name.c_str(),aj.action.c_str());
+              }
+            fprintf(o,"}\n");
+
+            if (!inlineDef)
+              {
                 // explicit instantiation
                 fprintf(o,"template\n");
                 fprintf(o,"void classdesc_access::access_%s< %s >::",
@@ -1981,6 +1916,39 @@ int main(int argc, char* argv[])
 
                 fclose(o);
               }
+
+            printf("template <class _CD_TYPE>\n");
+            printf("void type(classdesc::%s_t& targ, const classdesc::string& desc)\n{\n",action[k]);
+            if (actions[i].namespace_name.size())
+              printf("using namespace %s;\n",actions[i].namespace_name.c_str());
+            printNestedTypes(stdout,prefix,!actions[i].templ.empty());
+                
+            for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
+              printf("%s\n",tempVarDecls[ii].declare().c_str());
+            for (size_t j=0; j<actions[i].actionlist.size(); j++)
+              {
+                const act_pair& aj=actions[i].actionlist[j];
+                if (aj.base)
+                  printf("::%s<_CD_TYPE,%s >(targ,desc+\"%s\");\n",
+                         action[k], aj.member.c_str(),
+                         aj.name.c_str());
+                // only emit actions that are member pointers or base classes
+                else if ((aj.action[0]=='&' && aj.action.find("::")) ||
+                         aj.action.find("TmpMemPtr_")==0 ||
+                         aj.action.find("classdesc::is_constructor")==0)
+                  printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
+                         action[k], type_arg_name.c_str(),
+                         aj.name.c_str(),aj.action.c_str());
+                else if (aj.action.find("classdesc::is_array")==0 && aj.member.length())
+                  printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",&%s::%s);\n",
+                         action[k], type_arg_name.c_str(),
+                         aj.name.c_str(),without_type_qualifier(type_arg_name).c_str(),aj.member.c_str());
+                else if (aj.action.find("classdesc::is_const_static")==0 && use_mbr_pointers)
+                  printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
+                         action[k], type_arg_name.c_str(),aj.name.c_str(),aj.action.c_str());
+                  
+              }
+            printf("}\n};\n");
           }
 
       }
-- 
2.43.0


From 6b4650ef30d75992f93171966811e36f9ca32675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 086/113] fix: copies and assignments of MPIbuf have the
 contents and settings of the original, instead of adding to their own

---
 classdescMP.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d9d930..128ff2c 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -99,13 +99,13 @@ namespace classdesc
     bool const_buffer; 
     int proc, tag; /* store status of receives */
 
-    MPIbuf()
+    MPIbuf(): proc(-1), tag(0)
     {
       request=MPI_REQUEST_NULL;
       Communicator=MPI_COMM_WORLD; const_buffer=0;
       offsets=new int[nprocs()+1]; offsctr=1; offsets[0]=0;
     }
-    MPIbuf(const MPIbuf& x): offsets(NULL) {*this=x;}
+    MPIbuf(const MPIbuf& x): offsets(NULL), request(MPI_REQUEST_NULL) {*this=x;}
     ~MPIbuf() 
     {
       if (request!=MPI_REQUEST_NULL) wait(); //MPI_Request_free(&request);
@@ -113,12 +113,17 @@ namespace classdesc
     }
     const MPIbuf& operator=(const MPIbuf& x)
     { 
+      if (this==&x) return *this;
+      if (request!=MPI_REQUEST_NULL) wait();
       Communicator=x.Communicator;
+      const_buffer=x.const_buffer;
+      proc=x.proc; tag=x.tag;
       delete [] offsets;
       offsets=new int[nprocs()+1];
       offsctr=x.offsctr;
       for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];
       request=MPI_REQUEST_NULL;
+      reseti(); reseto();
       packraw(x.data(),x.size());
       return *this;
     }
-- 
2.43.0


From 67163f7feccd163bc063ac2602d8d6bf0d9dd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 087/113] fix: MPIbuf::reset and scatter leave no processor
 marks behind, and scatter starts reading at the start

---
 classdescMP.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 128ff2c..2531c11 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -153,7 +153,7 @@ namespace classdesc
     /// scatter \a root's data (that has been marked with \c mark)
     MPIbuf& scatter(unsigned root); 
     /// reset the buffer to send or receive a new message
-    MPIbuf& reset() {reseti(); reseto(); tag=1; return *this;}
+    MPIbuf& reset() {reseti(); reseto(); offsctr=1; tag=1; return *this;}
     /// is there a message waiting to be received into the buffe
     bool msg_waiting(int source=MPI_ANY_SOURCE, int tag=MPI_ANY_TAG);
 
@@ -388,6 +388,8 @@ namespace classdesc
         free(rootdata); delete [] sizes;
         for (int i=0; i<np; offsets[i++]=0);
       }
+    offsctr=1;
+    reseto();
     return *this;
   }
 
-- 
2.43.0


From 86b7061667a6c7341af3ffeafd9936fd11627d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 088/113] fix: MPIbuf_array does not report and wait for
 completed messages again

---
 classdescMP.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 2531c11..b7118e1 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -180,6 +180,11 @@ namespace classdesc
   {
     std::vector<MPIbuf> bufs;
     std::vector<MPI_Request> requests;
+    void getRequests()
+    {for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;}
+    // requests that have completed become MPI_REQUEST_NULL
+    void putRequests()
+    {for (size_t i=0; i<bufs.size(); i++) bufs[i].request=requests[i];}
   public:
     
     MPIbuf_array(unsigned n): bufs(n), requests(n) {}
@@ -190,16 +195,18 @@ namespace classdesc
     bool testall()
     {
       int flag;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testall(bufs.size(),requests.data(),&flag,MPI_STATUSES_IGNORE);
+      putRequests();
       return flag;
     }
     /// return the index of any request that has completed, or MPI_UNDEFINED if none  
     int testany()
     {
       int flag,index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testany(bufs.size(),requests.data(),&index,&flag,MPI_STATUS_IGNORE);
+      putRequests();
       return index;
     }
     /// return the index of the requests that have completed
@@ -207,22 +214,25 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
+      putRequests();
       return std::vector<int>(index.begin(),index.begin()+count);
     }
     /// wait for all outstanding requests to complete
     void waitall() 
     {
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitall(bufs.size(),requests.data(),MPI_STATUSES_IGNORE);
+      putRequests();
     }
     /// wait for any outstanding request to complete, returning index of completed request
     int waitany()
     {
       int index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitany(bufs.size(),requests.data(),&index,MPI_STATUSES_IGNORE);
+      putRequests();
       return index;
     }
     /// wait for some outstanding requests to complete, returning an array of request indices
@@ -230,8 +240,9 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUS_IGNORE);
+      putRequests();
       return std::vector<int>(index.begin(),index.begin()+count);
     }
   };
-- 
2.43.0


From d74b20f1c5b6245495341a0cfc25169782aac41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 089/113] fix: MPIbuf::send_recv receives the message with the
 tag asked for, and records its source and tag

---
 classdescMP.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index b7118e1..1ce1ce8 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -305,13 +305,13 @@ namespace classdesc
     MPI_Request r1;
 
     MPI_Isend(data(), size(), MPI_CHAR, dest, sendtag, Communicator, &r1);
-    MPI_Probe(source, sendtag, Communicator, &status);
+    MPI_Probe(source, recvtag, Communicator, &status);
     MPI_Get_count(&status, MPI_CHAR, &tempsize);
     
     char *tempdata=realloc(NULL, tempsize);
-    MPI_Recv(tempdata,tempsize, MPI_CHAR,source,recvtag,Communicator,&status);
+    MPI_Recv(tempdata,tempsize, MPI_CHAR,status.MPI_SOURCE,status.MPI_TAG,Communicator,&status);
     
-    MPI_Wait(&r1,&status); // ensure data is actually sent before deleting storage
+    MPI_Wait(&r1,MPI_STATUS_IGNORE); // ensure data is actually sent before deleting storage
     realloc(0); m_data=tempdata; m_size=tempsize;
     proc=status.MPI_SOURCE;
     tag=status.MPI_TAG;
-- 
2.43.0


From 16a77a7f8ec28bb847161ff05835a141108cda8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 090/113] fix: MPIbuf::gather with const_buffer keeps all of
 the data

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 1ce1ce8..4f4bfe5 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -363,7 +363,7 @@ namespace classdesc
     }
     else
       {
-        rootsz=size();
+        rootsz=size()*nprocs();
         if (myid()==root) rootdata=realloc(NULL,size()*nprocs());
         MPI_Gather(data(),size(),MPI_CHAR,rootdata,size(),
                    MPI_CHAR,root,Communicator);
-- 
2.43.0


From 372afcea722e2437ecaa86c2074999735629f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 091/113] fix: MPIslave::operator<< does not recur for ever

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 4f4bfe5..0d6cce6 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -432,7 +432,7 @@ namespace classdesc
       return *this;
     }
     template <class T> MPIbuf& operator<<(const T& x)
-    {reseti(); return (*this) << x;}
+    {reseti(); return static_cast<MPIbuf&>(*this) << x;}
     /// send a request to the next available slave
     void exec(MPIbuf& x) {x.send(idle.back(),0); idle.pop_back();}
     /// process a return value
-- 
2.43.0


From 0007729a2c65d19f7bf058c66b9f810d726ed89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 092/113] fix: MPIslave::bcast sends the buffer it is given

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d6cce6..79584dd 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -488,7 +488,7 @@ namespace classdesc
   inline void MPIslave<S>::bcast(MPIbuf& c)
   {
     for (unsigned i=1; i<nprocs(); i++) 
-    {MPI_Send(data(),size(),MPI_CHAR,i,0,c.Communicator);}
+    {MPI_Send(c.data(),c.size(),MPI_CHAR,i,0,c.Communicator);}
     c.reseti();
   }
 
-- 
2.43.0


From a4b2aa7e036d67fa38a682a9d91db0a6e8f1d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 093/113] fix: head() of a name that has no components is empty

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index e998d6c..46c26ec 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -993,7 +993,7 @@ namespace classdesc
   inline std::string head(const string& x) {
     std::string r(x);
     std::string::size_type i=r.rfind('.');
-    return r.substr( 0, i==std::string::npos? std::string::npos: i);
+    return r.substr( 0, i==std::string::npos? 0: i);
   }
 
   /// helper for unpacking into map value_types
-- 
2.43.0


From 839a8e2fb2db794b781e24226d5a176734365891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 094/113] fix: packing to JSON keeps the error handling flags

---
 json_pack_base.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index bd97aed..db955a8 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -157,7 +157,7 @@ namespace classdesc
     }
 
     /// convert this to an object type (if not already)
-    void objectify() {if (type()!=RESTProcessType::object) *this=json_pack_t(json5_parser::mObject());}
+    void objectify() {if (type()!=RESTProcessType::object) json5_parser::mValue::operator=(json5_parser::mObject());}
 
   };
 
@@ -328,8 +328,7 @@ namespace classdesc
     using namespace json5_parser;
     if (d=="")
       {
-        json_pack_t tmp(valueof(a));
-        o=tmp;
+        static_cast<json5_parser::mValue&>(o)=valueof(a);
       }
     else
       {
-- 
2.43.0


From 01879e06743371d7d550b9114596d0bceecc40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 095/113] fix: arrays can be packed to JSON at the top level

---
 json_pack_base.h | 51 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index db955a8..b5b7b35 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -370,6 +370,41 @@ namespace classdesc
       }
   }  
 
+  /// make \a val the value called \a d within \a o
+  inline void json_pack_value(json_pack_t& o, const string& d, const json5_parser::mValue& val)
+  {
+    o.objectify();
+    try
+      {
+        json5_parser::mValue& parent=json_find(o,head(d));
+        if (parent.type()!=json5_parser::obj_type)
+          throw json_pack_error("attempt to pack a member into a non-object");
+        if (d.empty())
+          parent=val;
+        else
+          parent.get_obj()[tail(d)]=val;
+      }
+    catch (json_pack_error&)
+      {
+        // only throw if this flag is set
+        if (o.throw_on_error) throw; 
+      }
+  }
+
+  /// set \a val to the value called \a d within \a o
+  inline void json_unpack_value(json_unpack_t& o, const string& d, json5_parser::mValue& val)
+  {
+    try
+      {
+        val=json_find(o,d);
+      }
+    catch (const json_pack_error&)
+      {
+        // only throw if this flag is set
+        if (o.throw_on_error) throw; 
+      }
+  }
+
   template <class T> void json_pack_isarray
   (json5_parser::mValue& jval, const T& val, std::vector<size_t> dims) 
   {
@@ -402,19 +437,9 @@ namespace classdesc
   dims[ndims-1]=ncopies;
   for (int i=ndims-2; i>=0; --i) dims[i]=va_arg(ap,size_t);
   va_end(ap);
-  try
-    {
-      json5_parser::mValue& parent=json_find(o,head(d));
-      if (parent.type()!=json5_parser::obj_type)
-        throw json_pack_error("attempt to pack an array member into a non-object");
-      else
-        json_pack_isarray(parent.get_obj()[tail(d)],a,dims);
-    }
-    catch (json_pack_error&)
-      {
-        // only throw if this flag is set
-        if (o.throw_on_error) throw; 
-      }
+  json5_parser::mValue val;
+  json_pack_isarray(val,a,dims);
+  json_pack_value(o,d,val);
   }
  
   template <class T> void json_unpack_isarray
-- 
2.43.0


From 15e0b10c8a0cf39d6119e82a0b8e10db80509024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 096/113] fix: JSON arrays shorter than the array unpacked are
 not read past their end

---
 json_pack_base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index b5b7b35..7f08e95 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -456,8 +456,9 @@ namespace classdesc
         dims.pop_back();
         size_t stride=1;
         for (size_t i=0; i<dims.size(); ++i) stride*=dims[i];
-        for (size_t i=0; i<s; ++i)
-          json_unpack_isarray(jval.get_array()[i],(&val)[i*stride], dims);
+        const json5_parser::mArray& arr=jval.get_array();
+        for (size_t i=0; i<s && i<arr.size(); ++i)
+          json_unpack_isarray(arr[i],(&val)[i*stride], dims);
       }
   }
                                             
-- 
2.43.0


From dfb0a4b93faf1d8f3490ce118901646922645887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 097/113] fix: enums absent from JSON are left unchanged

---
 json_pack_base.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index 7f08e95..3307e2d 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -506,7 +506,16 @@ namespace classdesc
                                     Enum_handle<T> arg)
   {
     std::string tmp;
-    json_unpack(x,d,tmp);
+    try
+      {
+        tmp=getValue<std::string>(json_find(x,d));
+      }
+    catch (const json_pack_error&)
+      {
+        // leave arg unchanged, only throw if this flag is set
+        if (x.throw_on_error) throw;
+        return;
+      }
     // remove extraneous white space
     int (*isspace)(int)=std::isspace;
     std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
-- 
2.43.0


From a026a0e23391596d50a8eac55db044f87debe7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:43 +0000
Subject: [PATCH 098/113] fix: pair members are packed to JSON

---
 json_pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index 3307e2d..bb13ca1 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -553,7 +553,7 @@ namespace classdesc
   template <class T1, class T2> 
   void json_pack(json_pack_t& o, const string& d, std::pair<T1,T2>& a)
   {
-    o.objectify();
+    json_pack_value(o,d,json5_parser::mObject());
     json_pack(o,d+".first",a.first);
     json_pack(o,d+".second",a.second);
   }
-- 
2.43.0


From 3cb6f61da3705844899026669172edb0183e41cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 099/113] fix: members with stream operators, and functions, do
 not replace the JSON packed so far

---
 json_pack_epilogue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json_pack_epilogue.h b/json_pack_epilogue.h
index e1369e0..91f5f0d 100644
--- a/json_pack_epilogue.h
+++ b/json_pack_epilogue.h
@@ -110,7 +110,7 @@ namespace classdesc_access
     {
       std::ostringstream o;
       o<<a;
-      b<<o.str();
+      ::json_pack(b,d,o.str());
     }
   };
 
@@ -122,7 +122,7 @@ namespace classdesc_access
                     T& a)
     {
       std::string s;
-      b>>s;
+      ::json_unpack(b,d,s);
       std::istringstream i(s);
       i>>a;
     }
@@ -136,7 +136,7 @@ namespace classdesc_access
   public:
     void operator()(cd::json_unpack_t& b, const cd::string& d, 
                     std::function<T>& a)
-    {b<<cd::typeName<T>();}
+    {::json_pack(b,d,cd::typeName<T>());}
   };
   template <class T>
   struct access_json_unpack<std::function<T>>
-- 
2.43.0


From 07c34eb5765f3351fa12bdbc789572b0d606ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:23 +0000
Subject: [PATCH 100/113] fix: members that are JSON values are packed under
 their name

---
 json_pack_epilogue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_pack_epilogue.h b/json_pack_epilogue.h
index 91f5f0d..f9afa7b 100644
--- a/json_pack_epilogue.h
+++ b/json_pack_epilogue.h
@@ -152,11 +152,11 @@ namespace classdesc_access
   {
     template <class U>
     void operator()(cd::json_pack_t& b, const cd::string& d, U& a)
-    {b=a;}
+    {cd::json_pack_value(b,d,a);}
   };
   template <> struct access_json_unpack<cd::json_pack_t>
   {
-    void operator()(cd::json_pack_t& b, const cd::string& d, cd::json_pack_t& a){a=b;}
+    void operator()(cd::json_pack_t& b, const cd::string& d, cd::json_pack_t& a){cd::json_unpack_value(b,d,a);}
     void operator()(cd::json_pack_t& b, const cd::string& d, const cd::json_pack_t& a){}
   };
 
@@ -164,11 +164,11 @@ namespace classdesc_access
   {
     template <class U>
     void operator()(cd::json_pack_t& b, const cd::string& d, U& a)
-    {b=cd::json_pack_t(a);}
+    {cd::json_pack_value(b,d,a);}
   };
   template <> struct access_json_unpack<json5_parser::mValue>
   {
-    void operator()(cd::json_pack_t& b, const cd::string& d, json5_parser::mValue& a){a=b;}
+    void operator()(cd::json_pack_t& b, const cd::string& d, json5_parser::mValue& a){cd::json_unpack_value(b,d,a);}
     void operator()(cd::json_pack_t& b, const cd::string& d, const json5_parser::mValue& a){}
   };
 
-- 
2.43.0


From a3f346758b2cdb9f0d7a38732ca14ff6819c6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:45 +0000
Subject: [PATCH 101/113] fix: tuples in JSON can be members, and unpack all
 their elements

---
 json_pack_epilogue.h | 49 ++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/json_pack_epilogue.h b/json_pack_epilogue.h
index f9afa7b..01b1802 100644
--- a/json_pack_epilogue.h
+++ b/json_pack_epilogue.h
@@ -179,36 +179,41 @@ namespace classdesc_access
     template <class U>
     void operator()(cd::json_pack_t& o, const cd::string& d, U& a)
     {
-      if (o.type()!=cd::RESTProcessType::array)
-        o=cd::json_pack_t(json5_parser::mArray());
-      if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
-        {
-          cd::json_pack_t j;
-          auto& head=std::get<0>(a);
-          ::json_pack(j,d,head);
-          auto& arr=o.get_array();
-          arr.emplace_back(j);
-          ::json_pack(o,d,cd::tupleTail(a));
-        }
+      json5_parser::mArray arr;
+      auto append=[&](auto& element) {
+        cd::json_pack_t j;
+        ::json_pack(j,"",element);
+        arr.emplace_back(j);
+      };
+      std::apply([&](auto&... elements) {(append(elements),...);},a);
+      cd::json_pack_value(o,d,arr);
     }
   };
     
   template <class... A>
   struct access_json_unpack<std::tuple<A...>>
   {
-    void operator()(cd::json_pack_t o, const cd::string& d, std::tuple<A...>& a)
+    void operator()(cd::json_unpack_t& o, const cd::string& d, std::tuple<A...>& a)
     {
-      if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
+      try
+        {
+          const json5_parser::mValue& val=cd::json_find(o,d);
+          if (val.type()!=json5_parser::array_type)
+            throw cd::json_pack_error("%s is not an array",d.c_str());
+          const json5_parser::mArray& arr=val.get_array();
+          size_t i=0;
+          auto extract=[&](auto& element) {
+            if (i<arr.size())
+              {
+                cd::json_unpack_t j(arr[i++]);
+                ::json_unpack(j,"",element);
+              }
+          };
+          std::apply([&](auto&... elements) {(extract(elements),...);},a);
+        }
+      catch (const cd::json_pack_error&)
         {
-          auto& arr=o.get_array();
-          cd::json_unpack_t j(arr[0]);
-          ::json_unpack(j,d,std::get<0>(a));
-          arr.erase(arr.begin());
-          if constexpr (std::tuple_size<std::tuple<A...>>::value>1)
-            {
-              auto tail=cd::tupleTail(a);
-              ::json_unpack(o,d,tail);
-            }
+          if (o.throw_on_error) throw;
         }
     }
   };
-- 
2.43.0


From 449624a7aca084e6e0d19015e583d017f3297d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:05 +0000
Subject: [PATCH 102/113] fix: null smart pointers are unpacked as null from
 JSON

---
 polyAccessJsonPack.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/polyAccessJsonPack.h b/polyAccessJsonPack.h
index 50c68c5..35b6214 100644
--- a/polyAccessJsonPack.h
+++ b/polyAccessJsonPack.h
@@ -56,6 +56,22 @@ namespace classdesc
   struct is_poly_constructible: public false_type {};
 #endif
   
+  /// the object a smart pointer called \a d points to, or NULL if there isn't one:
+  /// null pointers are absent, or empty objects
+  inline const json5_parser::mValue* json_pointee(json_unpack_t& x, const string& d)
+  {
+    try
+      {
+        const json5_parser::mValue& v=json_find(x,d);
+        if (v.type()==json5_parser::null_type ||
+            (v.type()==json5_parser::obj_type && v.get_obj().empty()))
+          return NULL;
+        return &v;
+      }
+    catch (const json_pack_error&)
+      {return NULL;}
+  }
+
     // polymorphic version
   template <class T>
   typename enable_if<is_poly_constructible<T>,void>::T
@@ -82,6 +98,11 @@ namespace classdesc
   json_unpack_smart_ptr(json_pack_t& x, const string& d, T& a,
                            dummy<1> dum=0)
   {
+    if (!json_pointee(x,d))
+      {
+        a.reset(); // data isn't there
+        return;
+      }
     ResetThrowOnErrorOnExit r(x);
     a.reset(new typename T::element_type);
     try
-- 
2.43.0


From 8fc6f0e841975705a7ae86e83d070aa545593a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 103/113] fix: polymorphic pointers below the top level are
 unpacked from JSON

---
 polyAccessJsonPack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polyAccessJsonPack.h b/polyAccessJsonPack.h
index 35b6214..b1f0730 100644
--- a/polyAccessJsonPack.h
+++ b/polyAccessJsonPack.h
@@ -78,7 +78,8 @@ namespace classdesc
   json_unpack_smart_ptr(json_unpack_t& x, const string& d, T& a,
                          dummy<0> dum=0)
   {
-    if (x.type()==RESTProcessType::object && x.get_obj().count("type"))
+    const json5_parser::mValue* v=json_pointee(x,d);
+    if (v && v->type()==json5_parser::obj_type && v->get_obj().count("type"))
       {
         typename T::element_type::Type type;
         ::json_unpack(x,d+".type",type);
-- 
2.43.0


From 50d78f3841ba1d50a8b3b7f4127a64a21984fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 104/113] fix: StringKeyMap keys may contain any character in
 JSON, and empty maps are packed

---
 stringKeyMap_epilogue.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/stringKeyMap_epilogue.h b/stringKeyMap_epilogue.h
index 620cf0d..f3b417b 100644
--- a/stringKeyMap_epilogue.h
+++ b/stringKeyMap_epilogue.h
@@ -9,22 +9,16 @@ namespace classdesc
   template <class T>
   void json_pack_stringKeyMap(json_pack_t& j,const string& d, const StringKeyMap<T>& a)
   {
-    try
+    // keys are arbitrary strings, so cannot be part of a descriptor
+    json5_parser::mObject obj;
+    typename StringKeyMap<T>::const_iterator i=a.begin();
+    for (; i!=a.end(); ++i)
       {
-        json5_parser::mValue& parent=json_find(j,head(d));
-        if (parent.type()!=json5_parser::obj_type)
-          throw json_pack_error("attempt to pack an array member into a non-object");
-        else
-          {
-            typename StringKeyMap<T>::const_iterator i=a.begin();
-            for (; i!=a.end(); ++i)
-              json_pack(j,d+"."+i->first, i->second);
-          }
-      }
-    catch (json_pack_error&)
-      {
-        if (j.throw_on_error) throw;
+        json_pack_t elem;
+        json_pack(elem,"",i->second);
+        obj[i->first]=elem;
       }
+    json_pack_value(j,d,obj);
   }
 
   template <class T>
@@ -40,7 +34,10 @@ namespace classdesc
               const json5_parser::mObject& arr=val.get_obj();
               a.clear();
               for (json5_parser::mObject::const_iterator i=arr.begin(); i!=arr.end(); ++i)
-                json_unpack(j,d+"."+i->first,a[i->first]);
+                {
+                  json_unpack_t elem(i->second);
+                  json_unpack(elem,"",a[i->first]);
+                }
             }
             break;
           case json5_parser::null_type:
-- 
2.43.0


From cc3d061cf6af992d91879ba4270620149142f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 105/113] fix: setting a map through RESTProcess keeps the keys

---
 RESTProcess_base.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 5e1d45f..9ecde17 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -295,6 +295,19 @@ namespace classdesc
       }
   }
  
+  /// used for removing const attributes of an associative container's value_type
+  template <class T>
+  struct MutableValueType
+  {
+    typedef typename std::remove_const<T>::type type;
+  };
+  
+  template <class K, class V>
+  struct MutableValueType<std::pair<const K, V> >
+  {
+    typedef std::pair<K, V> type;
+  };
+  
   template <class X>
   typename enable_if<And<is_associative_container<X>,Not<is_const<X>>>, void>::T
   convert(X& x, const REST_PROCESS_BUFFER& j)
@@ -307,7 +320,7 @@ namespace classdesc
           x.clear();
           for (auto& ai: arr)
             {
-              typename X::value_type v;
+              typename MutableValueType<typename X::value_type>::type v;
               REST_PROCESS_BUFFER(ai) >> v;
               x.insert(v);
             }
@@ -828,19 +841,6 @@ namespace classdesc
   RESTProcessp(RESTProcess_t& repo, const string& d, T& a)
   {repo.add(d, new RESTProcessValueSequence<T>(a));}
 
-  /// used for removing const attributes of an associative container's value_type
-  template <class T>
-  struct MutableValueType
-  {
-    typedef typename std::remove_const<T>::type type;
-  };
-  
-  template <class K, class V>
-  struct MutableValueType<std::pair<const K, V> >
-  {
-    typedef std::pair<K, V> type;
-  };
-  
   /// insert element into an associative container
   template <class T> 
   void RPAC_insert(T& obj, const REST_PROCESS_BUFFER& arguments)
-- 
2.43.0


From b323af11138d6c6c8845f8d7b7b61a182cf6a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:20 +0000
Subject: [PATCH 106/113] fix: @elemNoThrow of a key that is absent does not
 refer to a destroyed object

---
 RESTProcess_base.h     | 15 ---------------
 RESTProcess_epilogue.h |  2 +-
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 9ecde17..3db8d65 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -434,21 +434,6 @@ namespace classdesc
   template <class T>
   RPPtr mapAndProcess(const string& query, const REST_PROCESS_BUFFER& arguments, T& a);
 
-  template <class T>
-  inline typename enable_if<is_default_constructible<T>,RPPtr>::T
-  mapAndProcessDummy(const string& query, const REST_PROCESS_BUFFER& arguments)
-  {
-    T dummy{};
-    return mapAndProcess(query,arguments,dummy);
-  }
-
-  template <class T>
-  inline typename enable_if<Not<is_default_constructible<T>>,RPPtr>::T
-  mapAndProcessDummy(const string& query, const REST_PROCESS_BUFFER& arguments)
-  {
-    throw std::runtime_error(typeName<T>()+" is not default constructible, but requested element doesn't exist");
-  }
-
   template <class T> struct RESTProcessObject;
   template <class T> inline
   typename enable_if<is_copy_constructible<T>,RPPtr>::T
diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index adcf22e..531e7ba 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -350,7 +350,7 @@ namespace classdesc
             if (i==obj.end())
               {
                 if (startsWith(remainder,".@elemNoThrow"))
-                  return mapAndProcessDummy<typename T::value_type>(tail, arguments);
+                  return std::make_shared<RESTProcessVoid>();
                 else
                   throw std::runtime_error("key "+std::string(keyStart, keyEnd)+" not found");
               }
-- 
2.43.0


From 6b1090a944c099800ccbaa90e4ea49b224f8e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:43 +0000
Subject: [PATCH 107/113] fix: RESTProcess type of arrays with several
 dimensions

---
 RESTProcess_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 3db8d65..4cbb944 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -764,7 +764,7 @@ namespace classdesc
     }
     std::vector<Signature> signature() const override {return {};}
     RESTProcess_t list() const override {return {};}
-    std::string type() const override {return "typeName<T>()";}
+    std::string type() const override {return typeName<T>();}
     bool isObject() const override {return true;}
     RPPtr getElem(const REST_PROCESS_BUFFER& index) override {
       size_t idx; index>>idx;
-- 
2.43.0


From 3c8104e9738f35cdd2cc31cb17b3972de645e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 108/113] fix: paths continued beyond a function returning a
 value do not refer to a destroyed object

---
 RESTProcess_base.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 4cbb944..88171e1 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -1187,9 +1187,12 @@ namespace classdesc
     auto r=functional::callOnBuffer(argBuf,f);
     if (remainder.empty())
       return makeRESTProcessValueObject(std::move(r));
+    // what is returned may refer to the function's value, so keep that alive with it
+    auto value=std::make_shared<std::pair<decltype(r),RPPtr>>(std::move(r),nullptr);
     RESTProcess_t map;
-    RESTProcess(map,"",r);
-    return map.process(remainder, arguments);
+    RESTProcess(map,"",value->first);
+    value->second=map.process(remainder, arguments);
+    return RPPtr(value, value->second.get());
   }
   
   template <class F>
-- 
2.43.0


From 739bc5e66a57b1fa2fb9007466ff624311cea708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:30 +0000
Subject: [PATCH 109/113] fix: removing an element of a set through @elem does
 not report that it is not there

---
 RESTProcess_epilogue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index 531e7ba..2b94831 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -344,11 +344,14 @@ namespace classdesc
               }
 
             string tail(keyEnd,remainder.end());
-            if (tail.empty() && arguments.type()!=RESTProcessType::null)
+            const bool assigned=!is_const<T>::value && tail.empty() && arguments.type()!=RESTProcessType::null;
+            if (assigned)
               assignElem(obj, key, arguments);
             auto i=obj.find(key);
             if (i==obj.end())
               {
+                if (assigned) // element has just been removed from a set
+                  return std::make_shared<RESTProcessVoid>();
                 if (startsWith(remainder,".@elemNoThrow"))
                   return std::make_shared<RESTProcessVoid>();
                 else
-- 
2.43.0


From 6656ac20a03ea9ddd66246178cb0745d1b9ba423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 110/113] fix: paths beyond an element of a map act on the
 element, not on a copy

---
 RESTProcess_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index 2b94831..351126b 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -359,7 +359,7 @@ namespace classdesc
               }
             else if (tail.empty())
               return makeRESTProcessValueObject(elem_of(i));
-            auto eoi=elem_of(i);
+            auto& eoi=elem_of(i);
             return mapAndProcess(tail, arguments, eoi);
           }
       }
-- 
2.43.0


From 2aa572f5791ec8f6be0ffdf0c574b9841c371b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 111/113] fix: factories of classes with std arguments compile
 in C++17

---
 RESTProcess_epilogue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index 351126b..3f65a21 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -537,8 +537,8 @@ namespace classdesc
   {
     std::function<void(const std::string& name, A... args)> factory=
       [this,callback](const std::string& name, A... args) {
-      auto rp=make_unique<RESTProcessHeapObject<T>>();
-      rp->obj=make_unique<T>(std::forward<A>(args)...);
+      auto rp=std::make_unique<RESTProcessHeapObject<T>>();
+      rp->obj=std::make_unique<T>(std::forward<A>(args)...);
       add(name,rp.release());
       callback(name);
     };
-- 
2.43.0


From fe9160a809e3a6d89dfe284fa595d87e76a31c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 112/113] fix: factories without callback can be called

---
 RESTProcess_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index 3f65a21..5e54c78 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -540,7 +540,7 @@ namespace classdesc
       auto rp=std::make_unique<RESTProcessHeapObject<T>>();
       rp->obj=std::make_unique<T>(std::forward<A>(args)...);
       add(name,rp.release());
-      callback(name);
+      if (callback) callback(name);
     };
     
     add(typeName, new RESTProcessFunction<decltype(factory),void>(factory));
-- 
2.43.0


From 3985bf4e861bb443b918076df9f8252c64efe5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:42 +0000
Subject: [PATCH 113/113] fix: guard macros of specialisations that differ in
 punctuation differ

---
 classdesc.cc | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index de93b87..bbeb3fe 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -169,12 +169,27 @@ struct action_t
 };
 
 // predicate indicating invalid preprocessor token character
-struct NotAlNumUnderScore
+/* a macro name for a type. Characters of plain types are
+   replaced by '_', the others by their codes, so that say T<int*> and
+   T<int&> differ */
+string macro_name(const string& type)
 {
-  bool operator()(char x) const {
-    return !isIdentifierChar(x);
-  }
-};
+  string r;
+  for (size_t i=0; i<type.length(); ++i)
+    if (isalnum(type[i]))
+      r+=type[i];
+    else
+      {
+        r+='_';
+        if (!strchr("_ :,<>*",type[i]))
+          {
+            char code[20];
+            sprintf(code,"%x",(unsigned char)type[i]);
+            r+=code;
+          }
+      }
+  return r;
+}
 
 #if 0    // used for debugging purposes
 class actions_t: public vector<action_t>
@@ -1339,10 +1354,8 @@ struct GuardMacro
 {
   GuardMacro(string macro)
   {
-    // replace all non-legal identifier characters with '_'.
-    for (unsigned i=0; i<macro.length(); ++i)
-      if (!isalnum(macro[i]))
-        macro[i]='_';
+    // replace all non-legal identifier characters
+    macro=macro_name(macro);
     printf("\n#ifndef %s\n",macro.c_str());
     printf("#define %s\n",macro.c_str());
   }
@@ -1671,9 +1684,7 @@ int main(int argc, char* argv[])
           n=without_type_qualifier(n);
 
           // add a guard macro around this code
-          string guardMacro="CLASSDESC_TYPENAME_"+n;
-          ::replace_if(guardMacro.begin(), guardMacro.end(), 
-                       NotAlNumUnderScore(), '_');
+          string guardMacro="CLASSDESC_TYPENAME_"+macro_name(n);
           printf("#ifndef %s\n",guardMacro.c_str());
           printf("#define %s\n",guardMacro.c_str());
           {
-- 
2.43.0

