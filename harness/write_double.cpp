// Every double: written and read back bit for bit, or refused because JSON has no such number.
#include "writelib.h"
static unsigned char out1[ 400 ], out2[ 400 ];
extern "C" void vf_main()
{
    vf_file* f1 = vf_fs_add( "one", out1, 0, 400, 0 );
    vf_file* f2 = vf_fs_add( "two", out2, 0, 400, 0 );
    double d[ COUNT ];
    vf_symbolic( d, sizeof d, "numbers" );
    bool finite = true;
    for ( int i = 0; i < COUNT; i++ ) finite &= ( ( dbits( d[ i ] ) >> 52 ) & 0x7FF ) != 0x7FF;
    {
        StructuredData sd;
        Array<char>    t;
        setText( t, (const unsigned char*)"[0,{\"a\":0}]", COUNT == 2 ? 11 : 0 );
        if ( COUNT == 1 ) setText( t, (const unsigned char*)"[0]", 3 );
        vf_assert( sd.Parse( t ).status == Status::kOk, "a valid text is rejected" );
        Array<Value*>* a = sd.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
        *( *a )[ 0 ]->GetDataAsPointerTo<double>() = d[ 0 ];
        if ( COUNT == 2 ) *( *a )[ 1 ]->AsJsonObjectValue()->FindMapElement( "a" )->GetDataAsPointerTo<double>() = d[ 1 ];
        Status w = sd.Write( "one" );
        vf_assert( ( w == Status::kOk ) == finite, "infinities and NaN have to be refused, and nothing else" );
        if ( w != Status::kOk )
        {
            vf_reach( "refused" );
            vf_end();
        }
        oracle::Scan o { out1, (int)f1->size };
        vf_assert( o.text() == oracle::kAccept, "what is written is not JSON" );
        StructuredData again;
        vf_assert( again.Parse( "one" ).status == Status::kOk, "what is written is not accepted" );
        const Array<Value*>* b = again.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
        const double* x = ( *b )[ 0 ]->GetDataAsPointerTo<double>();
        vf_assert( x && dbits( *x ) == dbits( d[ 0 ] ), "a number is not read back as it was written" );
        if ( COUNT == 2 )
        {
            x = ( *b )[ 1 ]->AsJsonObjectValue()->FindNumber( "a" );
            vf_assert( x && dbits( *x ) == dbits( d[ 1 ] ), "a number is not read back as it was written" );
        }
        vf_assert( again.Write( "two" ) == Status::kOk && f1->size == f2->size, "writing again gives another length" );
        for ( uint64_t i = 0; i < f1->size; i++ ) vf_assert( out1[ i ] == out2[ i ], "writing again gives other bytes" );
        vf_reach( "again" );
    }
}
