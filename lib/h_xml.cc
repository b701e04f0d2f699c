// XML serialisation of generated families: P08, P09, P10, P11
#define VERIF_NO_PACK
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "pack_stl.h"
#include "types.h"
#include "dom.h"
namespace pbt {template <> struct EName<classdesc::CDATA> {static std::string s() {return "CDATA";}};}
#include "support.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include "any.h"
#include "damage.h"
#include <expat.h>
#include <algorithm>
using namespace pbt;
using namespace classdesc;
std::vector<Entry> pbt::registry;
namespace
{
  const bool cxx98=__cplusplus<201103L;
  void setup()
  {
    profile().xmlText=true;
    profile().finite=cxx98;
    profile().nonNullElem=true;
  }

  // ---- reading with classdesc, from either kind of stream
  struct Reader
  {
    xml_unpack_t x;
    void parse(const std::string& doc, bool file)
    {
      if (file && doc.size())
        {
          FILE* f=fmemopen((void*)doc.data(),doc.size(),"r");
          try {x.parse(f);}
          catch (...) {fclose(f); throw;}
          fclose(f);
        }
      else
        {
          std::istringstream i(doc);
          x.parse(i);
        }
    }
    std::string contents()
    {
      std::ostringstream o;
      std::streambuf* b=std::cout.rdbuf(o.rdbuf());
      x.printContentMap();
      std::cout.rdbuf(b);
      return o.str();
    }
  };

  std::string write(Any& a, bool pretty, const std::string& schema, const char* root, bool viaConst=false)
  {
    std::ostringstream o;
    o.precision(21);
    xml_pack_t p(o,schema);
    p.prettyPrint=pretty;
    if (viaConst) a.xmlPackConst(p,root); else a.xmlPack(p,root);
    return o.str();
  }

  // ---- an independent parser
  struct Tree
  {
    std::vector<Node> stack;
    std::string xmlns, error;
    Tree(): stack(1) {}
    static void start(void* u, const char* n, const char** at)
    {
      Tree& t=*(Tree*)u;
      t.stack.push_back(Node(n));
      for (; *at; at+=2)
        if (t.stack.size()==2 && !strcmp(at[0],"xmlns")) t.xmlns=at[1];
        else t.error=std::string("attribute ")+at[0]+" on element "+n;
    }
    static void end(void* u, const char*)
    {
      Tree& t=*(Tree*)u;
      Node n=t.stack.back();
      t.stack.pop_back();
      t.stack.back().kids.push_back(n);
    }
    static void text(void* u, const char* c, int n) {((Tree*)u)->stack.back().content.append(c,n);}
    bool parse(const std::string& doc)
    {
      XML_Parser p=XML_ParserCreate("UTF-8");
      XML_SetUserData(p,this);
      XML_SetElementHandler(p,start,end);
      XML_SetCharacterDataHandler(p,text);
      bool ok=XML_Parse(p,doc.data(),doc.size(),1)==XML_STATUS_OK;
      if (!ok)
        {
          std::ostringstream o;
          o<<XML_ErrorString(XML_GetErrorCode(p))<<" at byte "<<XML_GetCurrentByteIndex(p);
          error=o.str();
        }
      XML_ParserFree(p);
      return ok;
    }
  };
  bool blank(const std::string& s) {return s.find_first_not_of(" \t\r\n")==std::string::npos;}
  // make the parsed tree comparable: text between elements is dropped where elements are expected
  void shape(Node& got, const Node& want, bool pretty, const std::string& path)
  {
    std::string p=path+"/"+want.name;
    if (want.leaf())
      {
        PBT_CHECK(got.kids.empty(),p<<": elements inside a simple value");
        got.kind=want.kind;
      }
    else
      {
        PBT_CHECK(pretty? blank(got.content): got.content.empty(),p<<": text "<<show(got.content)<<" between elements");
        got.kind=want.kind;
        for (size_t i=0; i<got.kids.size() && i<want.kids.size(); ++i) shape(got.kids[i],want.kids[i],pretty,p);
      }
  }
  std::string aSchema(Src& s)
  {
    static const char* v[]={"","http://www.example.com/a","urn:x-y:1.0"};
    return v[s.below(3)];
  }
  const char* aRoot(Src& s)
  {
    static const char* v[]={"root","doc","R_1"};
    return v[s.below(3)];
  }

  // ---- P08
  void roundtrip(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s);
    bool dirty=s.coin(), pretty=s.coin(), file=s.coin(), cst=s.coin();
    if (dirty) b->gen(s);
    std::string schema=aSchema(s);
    const char* root=aRoot(s);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<(pretty? " pretty": "")<<(dirty? " into "+b->show(): "");
    std::string before=a->show();
    std::string doc=write(*a,pretty,schema,root,cst);
    PBT_CHECK(a->show()==before,a->type()<<": xml_pack changed the object from "<<before<<" to "<<a->show());
    Reader r;
    r.parse(doc,file);
    b->xmlUnpack(r.x,root);
    PBT_CHECK(b->eq(*a),a->type()<<": unpacked "<<b->show()<<" from packed "<<a->show()<<" by way of "<<show(doc));
    Node n=a->dom(root);
    s.nontrivial(n.count()>4);
    s.label("dirty target",dirty); s.label("pretty",pretty); s.label("FILE",file);
    s.label("elements>20",n.count()>20); s.label("depth>3",n.deepest()>3);
  }

  // ---- P09
  void wellformed(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    a->gen(s);
    bool pretty=s.coin();
    std::string schema=aSchema(s);
    const char* root=aRoot(s);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<(pretty? " pretty": "")<<" xmlns="<<schema;
    Node want=a->dom(root);
    std::string doc=write(*a,pretty,schema,root);
    Tree t;
    PBT_CHECK(t.parse(doc),a->type()<<": document is not well formed: "<<t.error<<" in "<<show(doc));
    PBT_CHECK(t.error.empty(),a->type()<<": "<<t.error<<" in "<<show(doc));
    PBT_CHECK(t.stack.size()==1 && t.stack[0].kids.size()==1,"one root element");
    checkEq(t.xmlns,schema,"namespace of the root element");
    Node& got=t.stack[0].kids[0];
    shape(got,want,pretty,"");
    std::string d=diff(want,got);
    PBT_CHECK(d.empty(),a->type()<<": "<<d<<" in "<<show(doc));
    s.nontrivial(want.count()>4);
    s.label("elements>20",want.count()>20); s.label("pretty",pretty);
  }

  // ---- P10: documents written at random
  struct Writer
  {
    Src& s;
    std::ostringstream o;
    std::set<const Node*> dropped;
    size_t comments, attributes, cdatas, unknowns, refs;
    std::string attrWhite;
    Writer(Src& s): s(s), comments(0), attributes(0), cdatas(0), unknowns(0), refs(0) {}
    void space(int atLeast=0)
    {
      size_t n=s.below(3)==0? s.below(4): 0;
      if (n<size_t(atLeast)) n=atLeast;
      for (size_t i=0; i<n; ++i) o<<" \n\t"[s.below(3)];
    }
    void misc()     // what may stand between elements and inside text without meaning anything
    {
      if (s.below(4)) return;
      ++comments;
      static const char* body[]={""," c ","<not & an element>","'"," \" ",">"," - - ","</m1>","]]>","?>","<![CDATA[x","&amp;","\xe2\x82\xac", "<!DOCTYPE", "a-b->"};
      static const char* pi[]={"xml-stylesheet href=\"a.css\"","pi","pi <a> & ' \"","php echo '<x>'; ","pi ?","pi > "};
      if (s.below(3)) o<<"<!--"<<body[s.below(sizeof(body)/sizeof(body[0]))]<<"-->";
      else o<<"<?"<<pi[s.below(sizeof(pi)/sizeof(pi[0]))]<<"?>";
    }
    void between() {for (int i=0; i<2; ++i) {space(); misc();} space();}
    static unsigned long codepoint(const std::string& t, size_t& i)
    {
      unsigned char c=t[i++];
      if (c<0x80) return c;
      int n=c>=0xf0? 3: c>=0xe0? 2: 1;
      unsigned long r=c&(0x3f>>n);
      for (; n; --n) r=(r<<6)|(t[i++]&0x3f);
      return r;
    }
    static const char* named(char c)
    {
      switch (c) {case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&apos;";}
      return 0;
    }
    void ref(const std::string& t, size_t i, size_t j)
    {
      if (named(t[i]) && s.coin()) {++refs; o<<named(t[i]); return;}
      size_t k=i;
      unsigned long c=codepoint(t,k);
      (void)j;
      ++refs;
      char b[40];
      switch (s.below(4))
        {
        case 0: sprintf(b,"&#%lu;",c); break;
        case 1: sprintf(b,"&#x%lx;",c); break;
        case 2: sprintf(b,"&#x%lX;",c); break;
        default: sprintf(b,"&#%05lu;",c);
        }
      o<<b;
    }
    // one character of text, which may not stand for markup
    void chr(const std::string& t, size_t i, size_t j, const char* special)
    {
      if (strchr(special,t[i]) || s.below(8)==0) ref(t,i,j);
      else o.write(t.data()+i,j-i);
    }
    static size_t next(const std::string& t, size_t i) {codepoint(t,i); return i;}
    void text(const std::string& t)
    {
      for (size_t i=0; i<t.size();)
        {
          size_t k=s.below(10);
          if (k==0) misc();
          if (k==1 && i+1<=t.size())
            {
              size_t n=1+s.below(6), j=i;
              for (; n && j<t.size(); --n) j=next(t,j);
              std::string c=t.substr(i,j-i);
              if (c.find("]]>")==std::string::npos)
                {
                  ++cdatas;
                  o<<"<![CDATA["<<c<<"]]>";
                  i=j;
                  continue;
                }
            }
          size_t j=next(t,i);
          chr(t,i,j,"<&>");
          i=j;
        }
      if (s.below(8)==0) misc();
      if (s.below(12)==0) {o<<"<![CDATA[]]>"; ++cdatas;}
    }
    void attribute(const std::string& name, const std::string& t)
    {
      ++attributes;
      char q="\"'"[s.below(2)];
      char special[]={'<','&',q,'\t','\n',0};
      space(1);
      o<<name; space(); o<<"="; space(); o<<q;
      for (size_t i=0; i<t.size();)
        {
          size_t j=next(t,i);
          chr(t,i,j,special);
          i=j;
        }
      o<<q;
    }
    std::string unknownName()
    {
      static const char* v[]={"unk","zz-top","a.b","_u","m","new1","unk"};
      return v[s.below(7)];
    }
    void unknown(int depth)
    {
      ++unknowns;
      std::string n=unknownName();
      o<<"<"<<n;
      if (s.below(3)==0) attribute("uattr","v<&>'\"");
      size_t k=s.below(5);
      if (k==0) {space(); o<<"/>"; return;}
      o<<">";
      if (k==1 || depth>2) text("12 x<y");
      else if (k<4)
        {
          // names known elsewhere
          static const char* in[]={"<m1>7</m1>","<first/>","<int>3</int>","<string>s</string>","text"};
          o<<in[s.below(5)];
        }
      else
        for (size_t i=s.below(3); i; --i) unknown(depth+1);
      o<<"</"<<n<<">";
    }
    void number(const std::string& t)
    {
      if (s.below(4)==0) space(1);
      text(t);
      if (s.below(4)==0) space(1);
    }
    void element(const Node& n)
    {
      o<<"<"<<n.name;
      if (n.leaf())
        {
          if (s.below(6)==0) attribute("uattr","x");
          space();
          if (n.content.empty() && s.coin()) {o<<"/>"; return;}
          o<<">";
          if (n.kind==Node::number) number(n.content); else text(n.content);
        }
      else
        {
          // children in an order that keeps those of one name in theirs
          std::vector<const Node*> kids;
          std::map<std::string,size_t> names;
          for (size_t i=0; i<n.kids.size(); ++i)
            if (!dropped.count(&n.kids[i])) {kids.push_back(&n.kids[i]); names[n.kids[i].name]++;}
          if (s.coin())
            for (size_t i=0; i+1<kids.size(); ++i)
              {
                size_t j=i+s.below(kids.size()-i);
                if (kids[i]->name==kids[j]->name) continue;
                bool ok=true;
                for (size_t k=i; k<=j; ++k)
                  if ((k!=i && kids[k]->name==kids[i]->name) || (k!=j && kids[k]->name==kids[j]->name)) ok=false;
                if (ok) std::swap(kids[i],kids[j]);
              }
          std::vector<const Node*> elems;
          if (s.below(6)==0) attribute("uattr","y");
          for (size_t i=0; i<kids.size(); ++i)
            if (n.kind==Node::record && kids[i]->leaf() && !kids[i]->ptr && names[kids[i]->name]==1 && s.below(4)==0)
              attribute(kids[i]->name,kids[i]->content);
            else elems.push_back(kids[i]);
          space();
          if (elems.empty() && s.coin()) {o<<"/>"; return;}
          o<<">";
          for (size_t i=0; i<elems.size(); ++i)
            {
              between();
              if (s.below(8)==0) {unknown(0); between();}
              element(*elems[i]);
            }
          between();
          if (s.below(8)==0) {unknown(0); between();}
        }
      o<<"</"<<n.name; space(); o<<">";
    }
    void document(const Node& n)
    {
      static const char* decl[]={"","<?xml version=\"1.0\"?>","<?xml version='1.0' encoding=\"UTF-8\" standalone='yes'?>"};
      o<<decl[s.below(3)];
      between();
      if (s.below(3)==0)
        {
          static const char* sub[]={"<!ELEMENT a (#PCDATA)>","<!-- don't > -->","<!ENTITY e \"v>'<\">","<?pi '?>","<!ATTLIST a b CDATA '>\"'>","\n","<!-- ]> -->"};
          o<<"<!DOCTYPE "<<n.name;
          static const char* ext[]={""," SYSTEM \"a>b.dtd\""," PUBLIC '-//X//Y' \"it's\""};
          o<<ext[s.below(3)];
          if (s.coin())
            {
              o<<" [";
              for (size_t i=s.below(5); i; --i) o<<sub[s.below(sizeof(sub)/sizeof(sub[0]))];
              o<<"]";
            }
          space();
          o<<">";
          between();
        }
      element(n);
      if (s.coin()) between();
    }
  };
  // what is left of an object that is entirely absent: its smart pointers become null
  void stripPtrs(Node& n)
  {
    if (n.leaf() || (n.kind==Node::sequence && !n.fixed)) return;
    for (size_t i=0; i<n.kids.size();)
      if (n.kids[i].ptr) n.kids.erase(n.kids.begin()+i);
      else stripPtrs(n.kids[i++]);
  }
  // drop members of a at random and say what is then expected of unpacking into something that was b
  void drop(Src& s, Node& a, const Node& b, std::vector<std::vector<size_t> >& paths, std::vector<size_t> path, Node& expect)
  {
    for (size_t i=0; i<a.kids.size(); ++i)
      {
        Node& k=a.kids[i];
        const Node* other=0;
        size_t same=0;
        for (size_t j=0; j<b.kids.size(); ++j) if (b.kids[j].name==k.name) {other=&b.kids[j]; ++same;}
        std::vector<size_t> p=path; p.push_back(i);
        if (k.ptr || !other || other->ptr || same!=1) continue;
        if (s.below(6)==0)
          {
            expect.kids[i]=*other;
            stripPtrs(expect.kids[i]);
            paths.push_back(p);
          }
        else if (k.kind==Node::record)
          drop(s,k,*other,paths,p,expect.kids[i]);
      }
  }
  const Node* at(const Node& n, const std::vector<size_t>& p)
  {
    const Node* r=&n;
    for (size_t i=0; i<p.size(); ++i) r=&r->kids[p[i]];
    return r;
  }
  void layout(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s); b->gen(s);
    Node na=a->dom("root"), nb=b->dom("root"), expect=na;
    std::vector<std::vector<size_t> > paths;
    if (s.coin()) drop(s,na,nb,paths,std::vector<size_t>(),expect);
    Writer w(s);
    for (size_t i=0; i<paths.size(); ++i) w.dropped.insert(at(na,paths[i]));
    w.document(na);
    std::string doc=w.o.str();
    if (s.verbose) s.desc<<a->type()<<" "<<show(doc);
    {
      Tree t;
      if (!t.parse(doc)) throw std::logic_error("harness wrote a document that is not well formed: "+t.error+" "+show(doc));
    }
    bool file=s.coin();
    Reader r;
    r.parse(doc,file);
    b->xmlUnpack(r.x,"root");
    std::string d=diff(expect,b->dom("root"));
    PBT_CHECK(d.empty(),a->type()<<": "<<d<<" after unpacking "<<show(doc));
    s.nontrivial(na.count()>3 && (w.comments || w.attributes || w.cdatas || w.unknowns || w.refs || !paths.empty()));
    s.label("comments or PIs",w.comments); s.label("attributes",w.attributes); s.label("CDATA",w.cdatas); s.label("unknown elements",w.unknowns);
    s.label("references",w.refs); s.label("members absent",!paths.empty());
  }
  void leaves(const Node& n, std::vector<size_t> path, std::vector<std::vector<size_t> >& r)
  {
    for (size_t i=0; i<n.kids.size(); ++i)
      {
        std::vector<size_t> p=path; p.push_back(i);
        if (n.kids[i].ptr) continue;
        if (n.kids[i].leaf()) r.push_back(p);
        else if (n.kids[i].kind==Node::record) leaves(n.kids[i],p,r);
      }
  }
  void missing(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh()), c(a->fresh());
    a->gen(s); b->gen(s);
    Node na=a->dom("root");
    std::vector<std::vector<size_t> > p;
    leaves(na,std::vector<size_t>(),p);
    if (p.empty()) throw Discard();
    {
      Writer w(s);
      w.document(na);
      Reader r;
      r.parse(w.o.str(),s.coin());
      r.x.missingException=true;
      if (s.verbose) s.desc<<a->type()<<" "<<show(w.o.str())<<"; ";
      try {c->xmlUnpack(r.x,"root");}
      catch (const std::exception& e) {fail(std::string(a->type())+": complete document refused: "+e.what()+": "+show(w.o.str()));}
    }
    Writer w(s);
    const Node* n=at(na,p[s.below(p.size())]);
    w.dropped.insert(n);
    w.document(na);
    if (s.verbose) s.desc<<"without "<<n->name;
    Reader r;
    r.parse(w.o.str(),s.coin());
    r.x.missingException=true;
    bool threw=false;
    try {b->xmlUnpack(r.x,"root");}
    catch (const xml_pack_error&) {threw=true;}
    PBT_CHECK(threw,a->type()<<": no exception though "<<n->name<<" is missing from "<<show(w.o.str()));
    s.nontrivial(na.count()>2);
  }

  // ---- P11
  void use(Any& t)
  {
    t.show();
    write(t,false,"","root");
  }
  // unpack, whatever happens is fine as long as it is a result or an exception
  bool attempt(Src& s, const std::string& doc, bool file, std::string* contents=0)
  {
    Reader r;
    bool ok=true;
    try {r.parse(doc,file);}
    catch (const std::exception&) {ok=false;}
    if (contents) *contents=r.contents();
    for (size_t i=0; i<2; ++i)
      {
        Holder t(randomAny(s));
        if (s.coin()) t->gen(s);
        try {t->xmlUnpack(r.x,"root");}
        catch (const std::exception&) {}
        use(*t);
      }
    return ok;
  }
  void both(Src& s, const std::string& doc)
  {
    std::string c1, c2;
    bool a=attempt(s,doc,false,&c1), b=attempt(s,doc,true,&c2);
    PBT_CHECK(a==b,"stream "<<(a? "accepts": "rejects")<<" and FILE "<<(b? "accepts ": "rejects ")<<show(doc));
    PBT_CHECK(c1==c2,"stream and FILE read different contents from "<<show(doc));
    s.label("accepted",a); s.label("rejected",!a);
  }
  std::string aDocument(Src& s)
  {
    Holder a(randomAny(s));
    a->gen(s);
    if (s.coin()) return write(*a,s.coin(),aSchema(s),"root");
    Writer w(s);
    w.document(a->dom("root"));
    return w.o.str();
  }
  void good(Src& s)
  {
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s);
    Reader r;
    r.parse(write(*a,false,"","root"),s.coin());
    b->xmlUnpack(r.x,"root");
    PBT_CHECK(b->eq(*a),"after a refusal, unpacked "<<b->show()<<" from packed "<<a->show());
  }
  // cut short inside the root element
  void cut(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    a->gen(s);
    std::string doc=write(*a,s.coin(),aSchema(s),"root");
    size_t end=doc.rfind('>');
    if (s.verbose) s.desc<<show(doc);
    size_t step=1+end/150;
    for (size_t n=doc.find(0x3c)+1+s.below(step); n<=end; n+=step)
      {
        std::string d=doc.substr(0,n);
        bool file=s.coin();
        bool threw=false;
        Reader r;
        try {r.parse(d,file);}
        catch (const std::exception&) {threw=true;}
        PBT_CHECK(threw,"a document cut short is accepted: "<<show(d));
        if (s.below(8)==0) attempt(s,d,file);
      }
    s.nontrivial(end>40);
    good(s);
  }
  // an end tag that does not match
  void mismatch(Src& s)
  {
    setup();
    std::string doc=aDocument(s);
    std::vector<size_t> ends;
    for (size_t i=0; (i=doc.find("</",i))!=std::string::npos; ++i) ends.push_back(i);
    // only of documents that hold no text that looks like a tag
    if (ends.empty() || doc.find("<!")!=std::string::npos || doc.find("<?")!=std::string::npos) throw Discard();
    size_t i=ends[s.below(ends.size())]+2, j=i;
    while (j<doc.size() && doc[j]!='>' && !isspace((unsigned char)doc[j])) ++j;
    std::string name=doc.substr(i,j-i), other=name;
    switch (s.below(7))
      {
      case 0: other="x"+name; break;
      case 1: other=name+"x"; break;
      case 2: other=name.substr(1); break;
      case 3: other=name.substr(0,name.size()-1); break;
      case 4: other="other"; break;
      case 5: other=name; other[s.below(other.size())]='q'; break;
      default: other=std::string(1+s.below(12),'z');
      }
    if (other.empty() || other==name) throw Discard();
    std::string d=doc.substr(0,i)+other+doc.substr(j);
    if (s.verbose) s.desc<<show(d);
    bool file=s.coin(), threw=false;
    Reader r;
    try {r.parse(d,file);}
    catch (const std::exception&) {threw=true;}
    PBT_CHECK(threw,"end tag </"<<other<<"> is taken to end <"<<name<<">: "<<show(d));
    s.nontrivial(ends.size()>2);
  }
  const char* markup[]={"<","</",">","/>","<a>","</a>","<!--","-->","<![CDATA[","]]>","<?","?>","<!DOCTYPE","&","&#","&#x","&amp;","&#0;","&#-1;","&#99999999999999999999;","&#xFFFFFFFF;",
                        "&;","\"","'","=","#","#0",".","root","<root>","</root>","<root","first","pair","int"," ","\n","\t","]","]]","<!","<![","<!-","--","[","\0"};
  std::string soup(Src& s, size_t n)
  {
    std::string d;
    for (size_t i=0; i<n; ++i)
      switch (s.below(5))
        {
        case 0: d+=char(s.below(256)); break;
        case 1: d+=char('0'+s.below(10)); break;
        default: {size_t k=s.below(sizeof(markup)/sizeof(markup[0])); if (*markup[k]) d+=markup[k]; else d+='\0';}
        }
    return d;
  }
  void damaged(Src& s)
  {
    setup();
    std::string doc=aDocument(s);
    size_t n=1+s.below(4);
    for (size_t i=0; i<n && !doc.empty(); ++i)
      {
        size_t p=s.below(doc.size());
        switch (s.below(7))
          {
          case 0: doc[p]=char(s.below(256)); break;
          case 1: doc.erase(p,1+s.below(8)); break;
          case 2: doc.insert(p,soup(s,1+s.below(3))); break;
          case 3: doc.insert(p,doc.substr(s.below(doc.size()),s.below(60))); break;
          case 4: {size_t q=doc.find_first_of("<>&\"'/",p); if (q!=std::string::npos) doc.erase(q,1); break;}
          case 5: {size_t q=doc.find_first_of("<>&\"'/=",p); if (q!=std::string::npos) doc[q]="<>&\"'/= "[s.below(8)]; break;}
          default: doc.insert(p,std::string(1+s.below(3),doc[p]));
          }
      }
    if (s.verbose) s.desc<<show(doc);
    both(s,doc);
    s.nontrivial(doc.size()>30);
    good(s);
  }
  void noise(Src& s)
  {
    setup();
    std::string doc=soup(s,s.len(120));
    if (s.coin()) doc="<root>"+doc;
    if (s.verbose) s.desc<<show(doc);
    both(s,doc);
    s.nontrivial(doc.size()>12);
  }
  // numbers and enums given arbitrary text
  void values(Node& n, Src& s)
  {
    static const char* odd[]={"","abc","-","1e999","-1e999","99999999999999999999999999","-5","0x10","nan","inf","1,5","1.5.2","true","\xff","1 2","- 3","+4","   ","NaN","-INF","1e","e","0b1"};
    if (n.leaf()) {if (s.coin()) n.content=odd[s.below(sizeof(odd)/sizeof(odd[0]))];}
    for (size_t i=0; i<n.kids.size(); ++i) values(n.kids[i],s);
  }
  void oddvalues(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s);
    Node n=a->dom("root");
    values(n,s);
    std::ostringstream o;
    struct W {static void put(std::ostream& o, const Node& n)
      {
        o<<"<"<<n.name<<">";
        if (n.leaf()) for (size_t i=0; i<n.content.size(); ++i) o<<xml_quote(n.content[i]);
        for (size_t i=0; i<n.kids.size(); ++i) put(o,n.kids[i]);
        o<<"</"<<n.name<<">";
      }};
    W::put(o,n);
    std::string doc=o.str();
    if (s.verbose) s.desc<<a->type()<<" "<<show(doc);
    if (s.coin()) b->gen(s);
    Reader r;
    r.parse(doc,s.coin());
    try {b->xmlUnpack(r.x,"root");}
    catch (const std::exception&) {}
    use(*b);
    s.nontrivial(n.count()>3);
  }
}
static const Case cases[]={{"roundtrip",roundtrip},{"wellformed",wellformed},{"layout",layout},{"missing",missing},{"cut",cut},{"mismatch",mismatch},
                           {"damaged",damaged},{"noise",noise},{"oddvalues",oddvalues}};
void registerAll();
int main(int argc, char** argv)
{
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
